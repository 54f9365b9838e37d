//! The simulated systems, one per property.
use crate::engine::*;
use crate::*;
use simcore::model::{Kind, Node, Prim, Schema, Top};
use simcore::rng::Rng;

pub const CHECKS: &[&str] = &["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14"];

/// schemas on which a check can say something
pub fn pool(check: &str, s: &Schema) -> bool {
    let has = |f: &str| s.flags.iter().any(|x| x == f);
    match check {
        "C09" => s.is_enum,
        "C10" => ["reserve", "readonly", "redundant", "overlap"].iter().any(|f| has(f)),
        "C13" => has("prim"),
        "C14" => !s.nests.is_empty(),
        _ => true,
    }
}
/// the schemas taking part in a run
pub fn cast(cx: &Cx, check: &str, i: u64, r: &mut Rng) -> Vec<usize> {
    let p = &cx.pool;
    let mut ids = vec![p[i as usize % p.len()]];
    let more = match check {
        "C03" => r.below(3),
        "C05" | "C11" | "C12" => 1 + r.below(2),
        _ => 0,
    };
    for _ in 0..more {
        ids.push(p[r.below(p.len())]);
    }
    ids
}
pub fn make<'a>(check: &str, cx: &'a Cx<'a>, ids: &[usize], r: Option<&mut Rng>) -> Box<dyn World + 'a> {
    // the swarm configuration is drawn once per run and only steers `next`
    let mut fixed = Rng::new(0);
    let r = r.unwrap_or(&mut fixed);
    match check {
        "C01" | "C10" | "C13" => Box::new(Regs::new(cx, ids[0], check, r)),
        "C02" => Box::new(Paths::new(cx, ids[0], r)),
        "C03" => Box::new(Stream::new(cx, ids, r)),
        "C04" => Box::new(Cut::new(cx, ids[0], r)),
        "C05" => Box::new(Store::new(cx, ids, r)),
        "C06" => Box::new(Contain::new(cx, ids[0], r)),
        "C07" => Box::new(Torn::new(cx, ids[0], r)),
        "C08" => Box::new(Hex::new(cx, ids[0], r)),
        "C09" => Box::new(Bus::new(cx, ids[0], r)),
        "C11" => Box::new(Fleet::new(cx, ids, r)),
        "C12" => Box::new(Relay::new(cx, ids, r)),
        "C14" => Box::new(Parts::new(cx, ids[0], r)),
        c => panic!("harness: unknown check {c}"),
    }
}

// ------------------------------------------------------------------ access paths

const RP: [&str; 5] = ["array", "slice", "checked", "checked mut", "unchecked"];
const WP: [&str; 4] = ["array", "slice", "checked mut", "unchecked"];

fn rpaths(t: &Top) -> usize {
    if t.checked {
        5
    } else {
        2
    }
}
fn wpaths(t: &Top) -> usize {
    if t.slice_write && t.checked {
        4
    } else {
        1
    }
}
/// reads a field of the n byte structure at the front of `b`
fn rd(o: &dyn Ops, f: usize, path: usize, b: &mut [u8], n: usize) -> Result<Val, String> {
    let e = |e: (usize, usize)| format!("refused: {} read of {} bytes says {e:?}", RP[path], b.len());
    match path {
        0 => Ok(o.read(f, &b[..n])),
        1 => o.read_slice(f, b).map_err(e),
        2 => o.checked_read(f, b).map_err(e),
        3 => o.checked_mut_read(f, b).map_err(|e| format!("refused: checked mut read says {e:?}")),
        _ => Ok(o.unchecked_read(f, b)),
    }
}
fn wr(o: &dyn Ops, f: usize, path: usize, b: &mut [u8], n: usize, v: &Val) -> Result<(), String> {
    match path {
        0 => {
            o.write(f, &mut b[..n], v);
            Ok(())
        }
        1 => o.write_slice(f, b, v).map_err(|e| format!("refused: slice write says {e:?}")),
        2 => o.checked_mut_write(f, b, v).map_err(|e| format!("refused: checked mut write says {e:?}")),
        _ => {
            o.unchecked_write(f, b, v);
            Ok(())
        }
    }
}
fn noise(r: &mut Rng, n: usize) -> Vec<u8> {
    match r.below(4) {
        0 => vec![0; n],
        1 => vec![0xff; n],
        2 => (0..n).map(|_| if r.pm(500) { 0 } else { 0xff }).collect(),
        _ => (0..n).map(|_| r.next() as u8).collect(),
    }
}
/// a corruption, as bits to flip from some offset
fn damage(r: &mut Rng, n: usize) -> (usize, Vec<u8>) {
    let off = r.below(n);
    match r.below(4) {
        0 | 1 => (off, vec![1 << r.below(8)]),
        2 => (off, (0..1 + r.below(n - off)).map(|_| r.next() as u8).collect()),
        _ => (0, noise(r, n)),
    }
}
fn xor(b: &mut [u8], off: usize, x: &[u8]) {
    for (i, x) in x.iter().enumerate() {
        if let Some(y) = b.get_mut(off + i) {
            *y ^= x;
        }
    }
}
fn same(what: &str, want: &Val, got: &Val) -> Result<(), String> {
    if want == got {
        Ok(())
    } else {
        Err(format!("{what}: expected {want}, got {got}"))
    }
}
fn sameb(what: &str, want: &[u8], got: &[u8]) -> Result<(), String> {
    if want == got {
        Ok(())
    } else {
        Err(format!("{what}: expected {}, got {}", hexs(want), hexs(got)))
    }
}
/// value, as it must come back from an encode and decode
fn settle(s: &Schema, v: &Val) -> Val {
    s.dec(&s.enc(v))
}
fn nudge(r: &mut Rng, v: &Val) -> Option<Val> {
    Some(match v {
        Val::U(x) => Val::U(if r.pm(500) { x.wrapping_add(1) } else { x.wrapping_sub(1) } & simcore::model::mask(8)),
        Val::B(x) => Val::B(!x),
        Val::A(l) => {
            let mut l = l.clone();
            let i = r.below(l.len());
            l[i] = nudge(r, &l[i])?;
            Val::A(l)
        }
        _ => return None,
    })
}
fn fields_of(s: &Schema) -> Vec<usize> {
    (0..s.tops.len()).collect()
}

// ------------------------------------------------------------------ C01 C10 C13: shared register buffer

/// Client tasks and a foreign agent share one packed buffer; the oracle keeps the documented bits.
struct Regs<'a> {
    s: &'a Schema,
    o: &'static dyn Ops,
    real: Vec<u8>,
    model: Vec<u8>,
    sched: Sched,
    clients: Vec<(Vec<usize>, Option<usize>)>,
    faults: u32,
    whole: u32,
    focus: Vec<usize>,
    /// old style enums of the fields, for conversions outside of any buffer
    prims: Vec<(&'a Kind, &'a Prim, &'static dyn PrimOps)>,
    id: u64,
}
fn prims_of<'a>(n: &'a Node, out: &mut Vec<(&'a Kind, &'a Prim)>) {
    match n {
        Node::L(k @ Kind::P(p), _) if out.iter().all(|(_, q)| q.name != p.name) => out.push((k, p)),
        Node::A(v) => prims_of(&v[0], out),
        _ => {}
    }
}
fn is_prim(n: &Node) -> bool {
    match n {
        Node::L(k, _) => matches!(k, Kind::P(_)),
        Node::A(v) => is_prim(&v[0]),
        _ => false,
    }
}
impl<'a> Regs<'a> {
    fn new(cx: &'a Cx, i: usize, check: &str, r: &mut Rng) -> Self {
        let s = cx.s(i);
        let n = 2 + r.below(4);
        let mut focus = fields_of(s);
        if check == "C13" {
            let p: Vec<usize> = focus.iter().copied().filter(|f| is_prim(&s.tops[*f].node)).collect();
            if !p.is_empty() {
                // mostly the enum fields and their neighbours
                focus = p.iter().flat_map(|f| [*f, *f, *f, f.saturating_sub(1), (*f + 1).min(s.tops.len() - 1)]).collect();
            }
        }
        if check == "C10" {
            let mut seen = vec![0u8; s.bytes * 8];
            for t in &s.tops {
                t.cover.iter().for_each(|b| seen[*b] = seen[*b].saturating_add(1));
            }
            let p: Vec<usize> = focus.iter().copied().filter(|f| !s.tops[*f].w || !s.tops[*f].r || s.tops[*f].cover.iter().any(|b| seen[*b] > 1)).collect();
            focus.extend(p.iter().flat_map(|f| [*f, *f]));
        }
        let mut prims = vec![];
        if check == "C13" {
            s.tops.iter().for_each(|t| prims_of(&t.node, &mut prims));
        }
        let mut clients = vec![];
        for _ in 0..n {
            let k = 1 + r.below(4);
            clients.push(((0..k).map(|_| *r.pick(&focus)).collect(), None));
        }
        Regs {
            s,
            o: cx.ops[i],
            real: vec![0; s.bytes],
            model: vec![0; s.bytes],
            sched: Sched::new(r, n + 1),
            clients,
            faults: *r.pick(&[0, 300, 1000, 1000]),
            whole: match check {
                "C01" => *r.pick(&[0, 0, 50]),
                _ => *r.pick(&[100, 250, 400]),
            },
            focus,
            prims: prims.iter().map(|(k, p)| (*k, *p, cx.prims[p.name.as_str()])).collect(),
            id: i as u64,
        }
    }
    fn look(&self, f: usize, path: usize, st: &mut Stats, what: &str) -> Result<(), String> {
        let t = &self.s.tops[f];
        st.check();
        let got = rd(self.o, f, path, &mut self.real.clone(), self.s.bytes)?;
        same(&format!("{what}: {}", t.name), &t.node.dec(&self.model), &got)
    }
}
impl World for Regs<'_> {
    fn next(&mut self, r: &mut Rng) -> Option<Step> {
        let a = self.sched.turn(r);
        let mut s = if a == 0 {
            if r.pm(self.faults) {
                let (off, b) = damage(r, self.s.bytes);
                Step::new("foreign", &[0, off as i64]).b(b)
            } else {
                Step::new("audit", &[0])
            }
        } else if !self.prims.is_empty() && r.pm(100) {
            // a client converts a value it got over another channel
            let k = r.below(self.prims.len());
            let p = self.prims[k].1;
            let x = if r.pm(600) { (*r.pick(&p.vals)).clamp(0, 255) + r.below(3) as i64 - 1 } else { r.below(256) as i64 };
            let v = Node::L(self.prims[k].0.clone(), vec![0; 8]).gen(r, false);
            Step::new("convert", &[a as i64, k as i64, x.clamp(0, 255)]).v(v)
        } else if r.pm(self.whole) {
            if r.pm(500) {
                Step::new("load", &[a as i64])
            } else {
                let v = if r.pm(400) { self.s.dec(&self.real) } else { self.s.gen(r, false) };
                Step::new("save", &[a as i64]).v(v)
            }
        } else {
            let (mine, pending) = &mut self.clients[a - 1];
            if let Some(f) = pending.take() {
                // second half of a read-modify-write, other clients may have run in between
                let t = &self.s.tops[f];
                let v = match nudge(r, &t.node.dec(&self.model)) {
                    Some(v) if r.pm(600) => v,
                    _ => t.node.gen(r, false),
                };
                let v = if t.node.gen(&mut Rng::new(1), true).kind() == v.kind() { v } else { t.node.gen(r, false) };
                Step::new("write", &[a as i64, f as i64, r.below(wpaths(t)) as i64]).v(v)
            } else {
                let f = if r.pm(800) { *r.pick(mine) } else { *r.pick(&self.focus) };
                let t = &self.s.tops[f];
                if t.writable && r.pm(550) {
                    let v = t.node.gen(r, false);
                    Step::new("write", &[a as i64, f as i64, r.below(wpaths(t)) as i64]).v(v)
                } else {
                    if t.writable {
                        *pending = Some(f);
                    }
                    Step::new("read", &[a as i64, f as i64, r.below(rpaths(t)) as i64])
                }
            }
        };
        s.t = self.sched.now;
        Some(s)
    }
    fn apply(&mut self, s: &Step, st: &mut Stats) -> Result<(), String> {
        match s.op.as_str() {
            "foreign" => {
                st.fault("foreign write");
                xor(&mut self.real, s.u(1), &s.b);
                xor(&mut self.model, s.u(1), &s.b);
                Ok(())
            }
            "audit" => (0..self.s.tops.len()).try_for_each(|f| self.look(f, 0, st, "audit")),
            "read" => self.look(s.u(1), s.u(2), st, "read"),
            "write" => {
                let (f, v) = (s.u(1), s.v.as_ref().unwrap());
                let t = &self.s.tops[f];
                let before = self.real.clone();
                wr(self.o, f, s.u(2), &mut self.real, self.s.bytes, v)?;
                t.node.enc(v, &mut self.model);
                st.check();
                if self.real != self.model {
                    let bit = |b: &[u8], p: usize| b[p / 8] >> (7 - p % 8) & 1;
                    let out: Vec<usize> = (0..self.s.bytes * 8).filter(|p| !t.cover.contains(p) && bit(&before, *p) != bit(&self.real, *p)).collect();
                    let what = if out.is_empty() { "stored wrong".to_string() } else { format!("clobbered: bits {out:?} outside the field") };
                    return Err(format!("{what}: {} write of {} := {v} into {} expected {}, got {}", WP[s.u(2)], t.name, hexs(&before), hexs(&self.model), hexs(&self.real)));
                }
                if t.cover.len() < 128 && is_wide(v, t) {
                    st.probe("value larger than its field");
                }
                self.look(f, 0, st, "read back")
            }
            "convert" => {
                let (k, p, o) = &self.prims[s.u(1)];
                let (x, v) = (s.u(2) as u8, s.v.as_ref().unwrap());
                st.check();
                let named = p.stands_for(x);
                if named.is_none() {
                    st.probe("conversion of an undefined value");
                }
                same(&format!("from_primitive: {} of {x}", p.name), &named.map_or(k.unraw(x as u128), |i| Val::P(i, None)), &o.of(x))?;
                let want = k.raw(v) as u8;
                if o.to(v) != want {
                    return Err(format!("into_primitive: {} {v} expected {want}, got {}", p.name, o.to(v)));
                }
                // equal to the value it was declared with; a catch variant stands for no particular value
                let Val::P(i, _) = v else { panic!("harness: not a variant") };
                for y in [x, want] {
                    let want = *i != p.catch && want == y;
                    if o.eq(v, y).is_some_and(|e| e != want) {
                        return Err(format!("comparison: {} {v} with {y} expected {want}", p.name));
                    }
                }
                Ok(())
            }
            "load" => {
                st.check();
                same("decode", &self.s.dec(&self.model), &self.o.decode(&self.real))
            }
            "save" => {
                let v = s.v.as_ref().unwrap();
                st.check();
                self.real = self.o.encode(v);
                self.model = self.s.enc(v);
                sameb(&format!("encode: {v}"), &self.model, &self.real)
            }
            o => panic!("harness: step {o}"),
        }
    }
    fn finish(&mut self, st: &mut Stats) -> Result<(), String> {
        (0..self.s.tops.len()).try_for_each(|f| self.look(f, 0, st, "audit"))
    }
    fn digest(&self) -> u64 {
        hash_bytes(self.id, &self.real)
    }
}
fn is_wide(v: &Val, t: &Top) -> bool {
    match v {
        Val::U(x) => *x > simcore::model::mask(t.cover.len() as u32),
        _ => false,
    }
}

// ------------------------------------------------------------------ C02: one buffer, many access paths

struct Paths<'a> {
    s: &'a Schema,
    o: &'static dyn Ops,
    b: Vec<u8>,
    sched: Sched,
    modes: Vec<usize>,
    faults: u32,
    id: u64,
}
impl<'a> Paths<'a> {
    fn new(cx: &'a Cx, i: usize, r: &mut Rng) -> Self {
        let n = 2 + r.below(4);
        Paths { s: cx.s(i), o: cx.ops[i], b: vec![0; cx.s(i).bytes], sched: Sched::new(r, n + 1), modes: (0..n).map(|_| r.below(6)).collect(), faults: *r.pick(&[200, 600, 1000]), id: i as u64 }
    }
}
/// into_bytes, written field by field into zeroes
fn piecewise(o: &dyn Ops, s: &Schema, v: &Val) -> Vec<u8> {
    let mut b = vec![0; s.bytes];
    match (&s.root, v) {
        (Node::E { vars, .. }, Val::E(i, l)) => {
            let id = if vars[*i].cap { l[0].clone() } else { Val::U(vars[*i].id) };
            o.write(0, &mut b, &id);
            for (f, t) in s.tops.iter().enumerate() {
                match t.at {
                    Some((vi, fi)) if vi == *i && t.w && t.writable => o.write(f, &mut b, &l[fi]),
                    _ => {}
                }
            }
        }
        (_, v) => {
            for (f, t) in s.tops.iter().enumerate() {
                if t.w {
                    o.write(f, &mut b, &v.s()[f]);
                }
            }
        }
    }
    b
}
impl World for Paths<'_> {
    fn next(&mut self, r: &mut Rng) -> Option<Step> {
        let a = self.sched.turn(r);
        let f = r.below(self.s.tops.len());
        let t = &self.s.tops[f];
        let mut s = if a == 0 {
            if r.pm(self.faults) {
                let (off, b) = damage(r, self.b.len());
                Step::new("foreign", &[0, off as i64]).b(b)
            } else {
                let extra = r.below(5);
                let b = noise(r, extra);
                Step::new("resize", &[0]).b(b)
            }
        } else {
            let m = self.modes[a - 1];
            if m == 5 && r.pm(700) {
                match r.below(3) {
                    0 => Step::new("decode", &[a as i64]),
                    1 => Step::new("encode", &[a as i64]).v(self.s.dec(&self.b)),
                    _ => Step::new("encode", &[a as i64]).v(self.s.gen(r, false)),
                }
            } else if t.writable && r.pm(500) {
                Step::new("write", &[a as i64, f as i64, m.min(wpaths(t) - 1) as i64]).v(t.node.gen(r, false))
            } else {
                Step::new("read", &[a as i64, f as i64])
            }
        };
        s.t = self.sched.now;
        Some(s)
    }
    fn apply(&mut self, s: &Step, st: &mut Stats) -> Result<(), String> {
        let n = self.s.bytes;
        match s.op.as_str() {
            "foreign" => {
                st.fault("foreign write");
                xor(&mut self.b, s.u(1), &s.b);
            }
            "resize" => {
                st.fault("trailing bytes");
                self.b.truncate(n);
                self.b.extend(&s.b);
            }
            "read" => {
                let f = s.u(1);
                let want = self.o.read(f, &self.b[..n]);
                for p in 1..rpaths(&self.s.tops[f]) {
                    let mut c = self.b.clone();
                    let got = rd(self.o, f, p, &mut c, n)?;
                    st.check();
                    same(&format!("{} read differs: {} in {}", RP[p], self.s.tops[f].name, hexs(&self.b)), &want, &got)?;
                    sameb("read modified the buffer", &self.b, &c)?;
                }
            }
            "write" => {
                let (f, v) = (s.u(1), s.v.as_ref().unwrap());
                let before = self.b.clone();
                wr(self.o, f, s.u(2), &mut self.b, n, v)?;
                for p in 0..wpaths(&self.s.tops[f]) {
                    let mut c = before.clone();
                    wr(self.o, f, p, &mut c, n, v)?;
                    st.check();
                    sameb(&format!("{} and {} writes differ: {} := {v} in {}", WP[s.u(2)], WP[p], self.s.tops[f].name, hexs(&before)), &self.b, &c)?;
                }
            }
            "decode" => {
                let v = self.o.decode(&self.b[..n]);
                let x = self.o.from_slice(&self.b).map_err(|e| format!("refused: from_slice says {e:?}"))?;
                same("from_slice differs", &v, &x)?;
                let x = self.o.from_vec(&mut self.b.clone()).map_err(|e| format!("refused: from_vec says {e:?}"))?;
                same("from_vec differs", &v, &x)?;
                let (vi, l) = match &v {
                    Val::E(i, l) => (Some(*i), l),
                    v => (None, &v.s().to_vec()),
                };
                for (f, t) in self.s.tops.iter().enumerate() {
                    let k = match (vi, t.at) {
                        (None, _) => f,
                        (Some(i), Some((a, b))) if a == i => b,
                        _ => continue,
                    };
                    if t.r {
                        st.check();
                        same(&format!("decode differs from read: {} in {}", t.name, hexs(&self.b)), &self.o.read(f, &self.b[..n]), &l[k])?;
                    }
                }
            }
            "encode" => {
                let v = s.v.as_ref().unwrap();
                let b = self.o.encode(v);
                st.check();
                sameb(&format!("encode differs from writes: {v}"), &piecewise(self.o, self.s, v), &b)?;
                self.b.splice(..n, b);
            }
            o => panic!("harness: step {o}"),
        }
        Ok(())
    }
    fn digest(&self) -> u64 {
        hash_bytes(self.id, &self.b)
    }
}

// ------------------------------------------------------------------ C03: records over a byte stream

struct Stream<'a> {
    cx: &'a Cx<'a>,
    ids: Vec<usize>,
    /// records handed to the sender: schema, what must arrive, end offset in the stream
    sent: Vec<(usize, Val, usize)>,
    wire: Vec<u8>,
    /// receiver: connection offset, unread bytes, durable count of taken records
    rx: Vec<u8>,
    pos: usize,
    taken: usize,
    flight: Vec<(usize, usize)>,
    sched: Sched,
    mtu: usize,
    rates: [u32; 5],
    next_off: usize,
    stalled: usize,
}
impl<'a> Stream<'a> {
    fn new(cx: &'a Cx, ids: &[usize], r: &mut Rng) -> Self {
        Stream {
            cx,
            ids: ids.to_vec(),
            sent: vec![],
            wire: vec![],
            rx: vec![],
            pos: 0,
            taken: 0,
            flight: vec![],
            sched: Sched::new(r, 4),
            mtu: *r.pick(&[1, 2, 3, 5, 8, 16, 40, 100]),
            rates: [*r.pick(&[0, 100, 300]), *r.pick(&[0, 100, 300]), *r.pick(&[0, 0, 60]), *r.pick(&[0, 100]), *r.pick(&[0, 300])],
            next_off: 0,
            stalled: 0,
        }
    }
    fn base(&self) -> usize {
        if self.taken == 0 {
            0
        } else {
            self.sent[self.taken - 1].2
        }
    }
    fn arrive(&mut self, off: usize, len: usize) {
        let end = (off + len).min(self.wire.len());
        if off <= self.pos && end > self.pos {
            self.rx.extend(&self.wire[self.pos..end]);
            self.pos = end;
        }
    }
    fn take(&mut self, st: &mut Stats) -> Result<bool, String> {
        // with nothing more expected, the buffer is empty and any type is refused
        let (i, want) = match self.sent.get(self.taken) {
            Some((i, v, _)) => (*i, Some(v.clone())),
            None => (self.ids[0], None),
        };
        let n = self.cx.s(i).bytes;
        let before = self.rx.clone();
        st.check();
        match self.cx.ops[i].from_vec(&mut self.rx) {
            Ok(v) => {
                if before.len() < n {
                    return Err(format!("took a partial record: {} of {n} bytes gave {v}", before.len()));
                }
                sameb("took a wrong number of bytes", &before[n..], &self.rx)?;
                same("record changed on the way", &want.expect("harness: stream"), &v)?;
                self.taken += 1;
                if !self.rx.is_empty() {
                    st.probe("take left bytes of the next record");
                }
                Ok(true)
            }
            Err(e) => {
                if before.len() >= n {
                    return Err(format!("refused a whole record: {} bytes, {e:?}", before.len()));
                }
                if e != (before.len(), n) {
                    return Err(format!("wrong length error: {e:?} for {} of {n} bytes", before.len()));
                }
                sameb("failed take changed the buffer", &before, &self.rx)?;
                if !before.is_empty() {
                    st.probe("take of a partial record refused");
                }
                Ok(false)
            }
        }
    }
}
impl World for Stream<'_> {
    fn next(&mut self, r: &mut Rng) -> Option<Step> {
        let a = self.sched.turn(r);
        let mut s = match a {
            0 => {
                let i = r.below(self.ids.len());
                let v = self.cx.s(self.ids[i]).gen(r, true);
                Step::new("record", &[i as i64]).v(v)
            }
            1 => {
                // sender: the next segment, or again from the last acknowledged offset
                if self.next_off >= self.wire.len() || r.pm(self.rates[3]) {
                    self.next_off = self.base();
                }
                let len = (1 + r.below(self.mtu)).min(self.wire.len().saturating_sub(self.next_off));
                let off = self.next_off;
                self.next_off += len;
                Step::new("send", &[off as i64, len as i64])
            }
            2 => {
                if self.flight.is_empty() {
                    Step::new("idle", &[])
                } else {
                    let k = if r.pm(self.rates[4]) { r.below(self.flight.len()) } else { 0 };
                    let op = if r.pm(self.rates[0]) {
                        "drop"
                    } else if r.pm(self.rates[1]) {
                        "duplicate"
                    } else {
                        "deliver"
                    };
                    if k > 0 {
                        self.stalled += 1;
                    }
                    Step::new(op, &[k as i64])
                }
            }
            _ => {
                if r.pm(self.rates[2]) {
                    Step::new("crash", &[])
                } else {
                    Step::new(if r.pm(700) { "take" } else { "peek" }, &[])
                }
            }
        };
        s.t = self.sched.now;
        Some(s)
    }
    fn apply(&mut self, s: &Step, st: &mut Stats) -> Result<(), String> {
        match s.op.as_str() {
            "record" => {
                let i = self.ids[s.u(0)];
                let v = s.v.as_ref().unwrap();
                self.wire.extend(self.cx.ops[i].encode(v));
                self.sent.push((i, settle(self.cx.s(i), v), self.wire.len()));
            }
            "send" => {
                if s.u(1) > 0 && s.u(0) < self.wire.len() {
                    self.flight.push((s.u(0), s.u(1)));
                }
            }
            "drop" | "duplicate" | "deliver" => {
                let k = s.u(0);
                if k < self.flight.len() {
                    if k > 0 {
                        st.fault("reordering");
                    }
                    let (off, len) = self.flight[k];
                    match s.op.as_str() {
                        "duplicate" => st.fault("duplication"),
                        _ => {
                            self.flight.remove(k);
                        }
                    }
                    if s.op == "drop" {
                        st.fault("loss");
                    } else {
                        self.arrive(off, len);
                    }
                }
            }
            "crash" => {
                st.fault(if self.rx.is_empty() { "receiver crash" } else { "receiver crash with unread bytes" });
                self.rx.clear();
                self.pos = self.base();
            }
            "take" => {
                self.take(st)?;
            }
            "peek" => {
                if let Some((i, v, _)) = self.sent.get(self.taken) {
                    let n = self.cx.s(*i).bytes;
                    st.check();
                    match self.cx.ops[*i].from_slice(&self.rx) {
                        Ok(x) if self.rx.len() >= n => same("peeked record differs", v, &x)?,
                        Err(e) if self.rx.len() < n && e == (self.rx.len(), n) => {}
                        x => return Err(format!("peek: {} of {n} bytes gave {x:?}", self.rx.len())),
                    }
                }
            }
            _ => {}
        }
        Ok(())
    }
    /// Faults stop: with retransmission every record arrives within a bounded number of rounds.
    fn finish(&mut self, st: &mut Stats) -> Result<(), String> {
        self.flight.clear();
        for _ in 0..2 * self.wire.len() + self.sent.len() + 10 {
            if self.taken == self.sent.len() {
                break;
            }
            let p = self.pos;
            self.arrive(p, self.mtu.max(3));
            while self.take(st)? {}
        }
        if self.taken != self.sent.len() {
            return Err(format!("no progress: {} of {} records after faults stopped", self.taken, self.sent.len()));
        }
        sameb("bytes left over", &[], &self.rx)
    }
    fn digest(&self) -> u64 {
        hash_bytes(self.ids[0] as u64 ^ (self.taken as u64) << 20 ^ (self.sent.len() as u64) << 30 ^ (self.flight.len() as u64) << 40, &self.rx)
    }
}

// ------------------------------------------------------------------ C04: partial transfers

struct Cut<'a> {
    s: &'a Schema,
    o: &'static dyn Ops,
    src: Vec<u8>,
    rx: Vec<u8>,
    sched: Sched,
    id: u64,
}
impl<'a> Cut<'a> {
    fn new(cx: &'a Cx, i: usize, r: &mut Rng) -> Self {
        Cut { s: cx.s(i), o: cx.ops[i], src: vec![], rx: vec![], sched: Sched::new(r, 4), id: i as u64 }
    }
    fn padded(&self) -> Vec<u8> {
        let mut b = self.rx.clone();
        b.resize(self.s.bytes.max(b.len()), 0);
        b
    }
}
impl World for Cut<'_> {
    fn next(&mut self, r: &mut Rng) -> Option<Step> {
        let n = self.s.bytes;
        let a = self.sched.turn(r);
        let f = r.below(self.s.tops.len());
        let t = &self.s.tops[f];
        let mut s = match a {
            0 => {
                if self.src.len() < n || r.pm(200) {
                    let extra = r.below(4);
                    let b = noise(r, n + extra);
                    Step::new("connect", &[]).b(b)
                } else {
                    Step::new("arrive", &[1 + r.below(3) as i64])
                }
            }
            1 => {
                // cut close to where some field ends
                let k = t.need as i64 + r.below(3) as i64 - 1;
                Step::new(if r.pm(600) { "cut" } else { "arrive to" }, &[k.max(0)])
            }
            2 if t.slice_write && r.pm(500) => Step::new(if t.checked && r.pm(200) { "blind write" } else { "write" }, &[f as i64]).v(t.node.gen(r, false)),
            2 => Step::new(if t.checked && r.pm(200) { "blind read" } else { "read" }, &[f as i64]),
            _ => Step::new(*r.pick(&["check", "check mut", "from_slice", "from_vec"]), &[]),
        };
        s.t = self.sched.now;
        Some(s)
    }
    fn apply(&mut self, s: &Step, st: &mut Stats) -> Result<(), String> {
        let n = self.s.bytes;
        let len = self.rx.len();
        let whole = |what: &str, r: Result<(), (usize, usize)>| match r {
            Ok(()) if len >= n => Ok(()),
            Err(e) if len < n && e == (len, n) => Ok(()),
            r => Err(format!("{what} wrong: {len} of {n} bytes gave {r:?}")),
        };
        match s.op.as_str() {
            "connect" => {
                self.src = s.b.clone();
                self.rx.clear();
            }
            "arrive" | "arrive to" | "cut" => {
                let k = if s.op == "arrive" { len + s.u(0) } else { s.u(0) };
                if k < len {
                    st.fault("transfer cut short");
                    self.rx.truncate(k);
                } else {
                    st.fault("partial arrival");
                    let k = k.min(self.src.len());
                    self.rx.extend(&self.src[len..k.max(len)]);
                }
            }
            "read" => {
                let t = &self.s.tops[s.u(0)];
                st.check();
                match self.o.read_slice(s.u(0), &self.rx) {
                    Ok(v) if len >= t.need => same("read of a sufficient slice", &self.o.read(s.u(0), &self.padded()[..n]), &v)?,
                    Err(e) if len < t.need && e == (len, t.need) => st.probe("short read refused"),
                    x => return Err(format!("slice read wrong: {} needs {} bytes, {len} given, result {x:?}", t.name, t.need)),
                }
                if len >= t.need && len < n {
                    st.probe("field access in an incomplete structure");
                }
            }
            "write" => {
                let (t, v) = (&self.s.tops[s.u(0)], s.v.as_ref().unwrap());
                let before = self.rx.clone();
                let mut want = self.padded();
                st.check();
                match self.o.write_slice(s.u(0), &mut self.rx, v) {
                    Ok(()) if len >= t.need => {
                        self.o.write(s.u(0), &mut want[..n], v);
                        sameb("write to a sufficient slice", &want[..len], &self.rx)?
                    }
                    Err(e) if len < t.need && e == (len, t.need) => {
                        sameb("refused write changed the slice", &before, &self.rx)?;
                        st.probe("short write refused")
                    }
                    x => return Err(format!("slice write wrong: {} needs {} bytes, {len} given, result {x:?}", t.name, t.need)),
                }
            }
            "blind read" => {
                // an unchecked view: works as far as the slice reaches, and must not make up what lies beyond
                let t = &self.s.tops[s.u(0)];
                st.check();
                match guarded(|| self.o.unchecked_read(s.u(0), &self.rx)) {
                    Ok(v) if len >= t.need => same("unchecked read of a sufficient slice", &self.o.read(s.u(0), &self.padded()[..n]), &v)?,
                    Err(e) if len < t.need && !e.starts_with("harness") => st.probe("unchecked access beyond the slice stopped"),
                    x => return Err(format!("unchecked read wrong: {} needs {} bytes, {len} given, result {x:?}", t.name, t.need)),
                }
            }
            "blind write" => {
                let (t, v) = (&self.s.tops[s.u(0)], s.v.as_ref().unwrap());
                let mut want = self.padded();
                st.check();
                let (o, rx) = (self.o, &mut self.rx);
                match guarded(|| o.unchecked_write(s.u(0), rx, v)) {
                    Ok(()) if len >= t.need => {
                        self.o.write(s.u(0), &mut want[..n], v);
                        sameb("unchecked write to a sufficient slice", &want[..len], &self.rx)?
                    }
                    Err(e) if len < t.need && !e.starts_with("harness") => {
                        st.probe("unchecked access beyond the slice stopped");
                        // what is left behind is unspecified
                        self.rx.copy_from_slice(&want[..len]);
                    }
                    x => return Err(format!("unchecked write wrong: {} needs {} bytes, {len} given, result {x:?}", t.name, t.need)),
                }
            }
            "check" => {
                st.check();
                whole("check_slice", self.o.check(&self.rx))?
            }
            "check mut" => {
                st.check();
                whole("check_slice_mut", self.o.check_mut(&mut self.rx))?
            }
            "from_slice" => {
                st.check();
                whole("from_slice", self.o.from_slice(&self.rx).map(|_| ()))?
            }
            "from_vec" => {
                st.check();
                let mut b = self.rx.clone();
                let r = self.o.from_vec(&mut b).map(|_| ());
                if r.is_err() {
                    sameb("refused from_vec changed the vector", &self.rx, &b)?;
                }
                whole("from_vec", r)?
            }
            o => panic!("harness: step {o}"),
        }
        Ok(())
    }
    fn digest(&self) -> u64 {
        hash_bytes(self.id, &self.rx)
    }
}

// ------------------------------------------------------------------ C05: store on a corrupting disk

struct Store<'a> {
    cx: &'a Cx<'a>,
    ids: Vec<usize>,
    disk: Vec<Vec<u8>>,
    sched: Sched,
    faults: Vec<&'static str>,
}
impl<'a> Store<'a> {
    fn new(cx: &'a Cx, ids: &[usize], r: &mut Rng) -> Self {
        let mut faults: Vec<&str> = ["flip", "overwrite", "garbage", "misdirect", "zero"].iter().copied().filter(|_| r.pm(600)).collect();
        if faults.is_empty() {
            faults.push("flip");
        }
        Store { cx, ids: ids.to_vec(), disk: ids.iter().map(|i| vec![0; cx.s(*i).bytes]).collect(), sched: Sched::new(r, 3), faults }
    }
}
impl World for Store<'_> {
    fn next(&mut self, r: &mut Rng) -> Option<Step> {
        let a = self.sched.turn(r);
        let k = r.below(self.ids.len());
        let s = self.cx.s(self.ids[k]);
        let mut st = match a {
            0 => match *r.pick(&self.faults) {
                "flip" => {
                    let off = r.below(s.bytes);
                    Step::new("flip", &[k as i64, off as i64]).b(vec![1 << r.below(8)])
                }
                "overwrite" => {
                    let off = r.below(s.bytes);
                    let n = 1 + r.below(s.bytes - off);
                    let b = noise(r, n);
                    Step::new("overwrite", &[k as i64, off as i64]).b(b)
                }
                "garbage" => {
                    let b = (0..s.bytes).map(|_| r.next() as u8).collect();
                    Step::new("overwrite", &[k as i64, 0]).b(b)
                }
                "misdirect" => Step::new("misdirect", &[k as i64, r.below(self.ids.len()) as i64]),
                _ => Step::new("overwrite", &[k as i64, 0]).b(vec![*r.pick(&[0, 0xff]); s.bytes]),
            },
            1 if r.pm(300) => Step::new("put", &[k as i64]).v(s.gen(r, false)),
            _ => match r.below(3) {
                0 => Step::new("get", &[k as i64, r.below(3) as i64]),
                _ => {
                    let f = r.below(s.tops.len());
                    Step::new("read", &[k as i64, f as i64, r.below(rpaths(&s.tops[f])) as i64])
                }
            },
        };
        st.t = self.sched.now;
        Some(st)
    }
    fn apply(&mut self, s: &Step, st: &mut Stats) -> Result<(), String> {
        let k = s.u(0);
        let (sc, o) = (self.cx.s(self.ids[k]), self.cx.ops[self.ids[k]]);
        match s.op.as_str() {
            "flip" => {
                st.fault("bit flip");
                xor(&mut self.disk[k], s.u(1), &s.b);
            }
            "overwrite" => {
                st.fault("torn or garbage sector");
                self.disk[k][s.u(1)..s.u(1) + s.b.len()].copy_from_slice(&s.b);
            }
            "misdirect" => {
                st.fault("misdirected write");
                let src = self.disk[s.u(1)].clone();
                for (i, b) in self.disk[k].iter_mut().enumerate() {
                    *b = src[i % src.len()];
                }
            }
            "put" => self.disk[k] = o.encode(s.v.as_ref().unwrap()),
            "get" => {
                let b = self.disk[k].clone();
                let v = match s.u(1) {
                    0 => o.decode(&b),
                    1 => o.from_slice(&b).map_err(|e| format!("refused: from_slice says {e:?}"))?,
                    _ => o.from_vec(&mut b.clone()).map_err(|e| format!("refused: from_vec says {e:?}"))?,
                };
                st.check();
                same(&format!("decoded wrong: {}", hexs(&b)), &sc.dec(&b), &v)?;
                let e = o.encode(&v);
                if e.len() != sc.bytes {
                    return Err("encoded wrong: length".into());
                }
                o.decode(&e);
            }
            "read" => {
                let t = &sc.tops[s.u(1)];
                let v = rd(o, s.u(1), s.u(2), &mut self.disk[k].clone(), sc.bytes)?;
                st.check();
                same(&format!("read wrong: {} in {}", t.name, hexs(&self.disk[k])), &t.node.dec(&self.disk[k]), &v)?;
            }
            o => panic!("harness: step {o}"),
        }
        Ok(())
    }
    fn digest(&self) -> u64 {
        self.disk.iter().fold(self.ids[0] as u64, |h, d| hash_bytes(h, d))
    }
}

// ------------------------------------------------------------------ C06: containment and repair

struct Contain<'a> {
    s: &'a Schema,
    o: &'static dyn Ops,
    variant: usize,
    /// what each field held when the record was written
    clean: Vec<Val>,
    b: Vec<u8>,
    dirty: Vec<bool>,
    whole: Option<Val>,
    sched: Sched,
    id: u64,
    heavy: u32,
}
impl<'a> Contain<'a> {
    fn new(cx: &'a Cx, i: usize, r: &mut Rng) -> Self {
        let s = cx.s(i);
        let mut w = Contain { s, o: cx.ops[i], variant: 0, clean: vec![], b: vec![], dirty: vec![], whole: None, sched: Sched::new(r, 3), id: i as u64, heavy: *r.pick(&[0, 50, 300]) };
        w.fresh(vec![0; s.bytes], 0);
        w
    }
    fn mine(&self, f: usize) -> bool {
        self.s.tops[f].at.map_or(true, |(v, _)| v == self.variant)
    }
    /// writes every field of a variant once, so that no field holds bits which stand for no value
    fn fresh(&mut self, b: Vec<u8>, variant: usize) {
        self.b = b;
        self.variant = variant;
        if let Node::E { vars, .. } = &self.s.root {
            let id = Val::U(vars[variant].id);
            self.o.write(0, &mut self.b, &id);
        }
        for f in 0..self.s.tops.len() {
            let t = &self.s.tops[f];
            if self.mine(f) && t.writable && (t.at.is_some() || !self.s.is_enum) && t.w {
                let v = self.o.read(f, &self.b);
                self.o.write(f, &mut self.b, &v);
            }
        }
        self.clean = (0..self.s.tops.len()).map(|f| self.o.read(f, &self.b)).collect();
        self.whole = Some(self.o.decode(&self.b));
        self.dirty = vec![false; self.s.bytes * 8];
    }
    fn hit(&self, f: usize) -> bool {
        self.s.tops[f].cover.iter().any(|p| self.dirty[*p])
    }
    fn audit(&self, st: &mut Stats) -> Result<(), String> {
        for f in 0..self.s.tops.len() {
            if !self.hit(f) {
                st.check();
                same(&format!("undamaged field changed: {} in {}", self.s.tops[f].name, hexs(&self.b)), &self.clean[f], &self.o.read(f, &self.b))?;
            }
        }
        Ok(())
    }
}
impl World for Contain<'_> {
    fn next(&mut self, r: &mut Rng) -> Option<Step> {
        let a = self.sched.turn(r);
        let mut s = match a {
            0 => {
                if r.pm(self.heavy) {
                    let (off, b) = damage(r, self.s.bytes);
                    Step::new("corrupt", &[off as i64]).b(b)
                } else {
                    let off = r.below(self.s.bytes);
                    Step::new("corrupt", &[off as i64]).b(vec![1 << r.below(8)])
                }
            }
            1 => {
                let hit: Vec<usize> = (0..self.s.tops.len()).filter(|f| self.mine(*f) && self.s.tops[*f].writable && self.s.tops[*f].w && self.hit(*f)).collect();
                if hit.is_empty() || r.pm(100) {
                    let nv = if let Node::E { vars, .. } = &self.s.root { vars.len() } else { 1 };
                    let b = noise(r, self.s.bytes);
                    Step::new("fresh", &[r.below(nv) as i64]).b(b)
                } else {
                    let f = *r.pick(&hit);
                    Step::new("repair", &[f as i64, r.below(wpaths(&self.s.tops[f])) as i64])
                }
            }
            _ => Step::new(if r.pm(300) { "decode" } else { "audit" }, &[]),
        };
        s.t = self.sched.now;
        Some(s)
    }
    fn apply(&mut self, s: &Step, st: &mut Stats) -> Result<(), String> {
        match s.op.as_str() {
            "fresh" => {
                self.fresh(s.b.clone(), s.u(0));
                self.audit(st)
            }
            "corrupt" => {
                let mut own = false;
                for (i, x) in s.b.iter().enumerate() {
                    for k in 0..8 {
                        let p = (s.u(0) + i) * 8 + k;
                        if p < self.dirty.len() && x & (0x80 >> k) != 0 {
                            self.dirty[p] = true;
                            own |= self.s.tops.iter().any(|t| t.cover.contains(&p));
                        }
                    }
                }
                st.fault(if own { "corruption of owned bits" } else { "corruption of bits owned by no field" });
                xor(&mut self.b, s.u(0), &s.b);
                self.audit(st)
            }
            "repair" => {
                let f = s.u(0);
                let t = &self.s.tops[f];
                let before = self.b.clone();
                wr(self.o, f, s.u(1), &mut self.b, self.s.bytes, &self.clean[f])?;
                for p in 0..self.s.bytes * 8 {
                    let m = 0x80 >> (p % 8);
                    if !t.cover.contains(&p) && (self.b[p / 8] ^ before[p / 8]) & m != 0 {
                        return Err(format!("repair touched other bits: writing {} changed bit {p}, {} -> {}", t.name, hexs(&before), hexs(&self.b)));
                    }
                }
                for p in &t.cover {
                    self.dirty[*p] = false;
                }
                st.probe("field repaired");
                self.audit(st)
            }
            "audit" => self.audit(st),
            "decode" => {
                let v = self.o.decode(&self.b);
                let w = self.whole.as_ref().unwrap();
                if self.s.is_enum && self.hit(0) {
                    return Ok(());
                }
                if let (Val::E(a, _), Val::E(b, _)) = (&v, w) {
                    if a != b {
                        return Err(format!("variant changed: id undamaged but variant {b} became {a}"));
                    }
                }
                for (f, t) in self.s.tops.iter().enumerate() {
                    let k = match t.at {
                        Some((vi, fi)) if matches!(w, Val::E(x, _) if *x == vi) => fi,
                        None if !self.s.is_enum => f,
                        _ => continue,
                    };
                    if !self.hit(f) {
                        st.check();
                        same(&format!("undamaged field decoded differently: {} in {}", t.name, hexs(&self.b)), &w.s()[k], &v.s()[k])?;
                    }
                }
                Ok(())
            }
            o => panic!("harness: step {o}"),
        }
    }
    fn digest(&self) -> u64 {
        hash_bytes(self.id, &self.b)
    }
}

// ------------------------------------------------------------------ C07: updates of a durable record

struct Torn<'a> {
    s: &'a Schema,
    o: &'static dyn Ops,
    disk: Vec<u8>,
    ram: Vec<u8>,
    mdisk: Vec<u8>,
    mram: Vec<u8>,
    pre: Vec<u8>,
    full: Vec<u8>,
    /// bytes flushed since the transaction began
    arrived: Vec<bool>,
    log: Vec<(usize, usize, Val)>,
    pc: Option<usize>,
    redo: bool,
    through: bool,
    sched: Sched,
    crash: u32,
    id: u64,
}
impl<'a> Torn<'a> {
    fn new(cx: &'a Cx, i: usize, r: &mut Rng) -> Self {
        let s = cx.s(i);
        let z = vec![0; s.bytes];
        Torn { s, o: cx.ops[i], disk: z.clone(), ram: z.clone(), mdisk: z.clone(), mram: z.clone(), pre: z.clone(), full: z.clone(), arrived: vec![false; s.bytes], log: vec![], pc: None, redo: false, through: false, sched: Sched::new(r, 2), crash: *r.pick(&[50, 150, 400]), id: i as u64 }
    }
    fn audit(&self, st: &mut Stats, what: &str) -> Result<(), String> {
        for (f, t) in self.s.tops.iter().enumerate() {
            st.check();
            same(&format!("{what}: {} in {}", t.name, hexs(&self.disk)), &t.node.dec(&self.mdisk), &self.o.read(f, &self.disk))?;
        }
        Ok(())
    }
}
impl World for Torn<'_> {
    fn next(&mut self, r: &mut Rng) -> Option<Step> {
        let a = self.sched.turn(r);
        let mut s = match self.pc {
            None => {
                if self.redo {
                    Step::new("begin", &[r.below(2) as i64])
                } else if self.log.len() < 2 || r.pm(500) {
                    let fs: Vec<usize> = (0..self.s.tops.len()).filter(|f| self.s.tops[*f].writable).collect();
                    let f = *r.pick(&fs);
                    let t = &self.s.tops[f];
                    Step::new("log", &[f as i64, r.below(wpaths(t)) as i64]).v(t.node.gen(r, false))
                } else if r.pm(150) {
                    let b = noise(r, self.s.bytes);
                    Step::new("format", &[]).b(b)
                } else {
                    Step::new("begin", &[r.below(2) as i64])
                }
            }
            Some(_) if a == 0 && r.pm(self.crash) => Step::new("crash", &[]),
            Some(pc) => {
                let left: Vec<usize> = (0..self.s.bytes).filter(|p| !self.arrived[*p]).collect();
                if pc < self.log.len() && (self.through || r.pm(700)) {
                    Step::new("do", &[])
                } else if !self.through && pc == self.log.len() && !left.is_empty() {
                    Step::new("flush", &[*r.pick(&left) as i64])
                } else if !self.through && pc < self.log.len() {
                    // early write back of a byte that may still change
                    Step::new("flush", &[r.below(self.s.bytes) as i64])
                } else {
                    Step::new("end", &[])
                }
            }
        };
        s.t = self.sched.now;
        Some(s)
    }
    fn apply(&mut self, s: &Step, st: &mut Stats) -> Result<(), String> {
        let n = self.s.bytes;
        match (s.op.as_str(), self.pc) {
            ("format", None) if !self.redo => {
                self.disk = s.b.clone();
                self.mdisk = s.b.clone();
            }
            ("log", None) if !self.redo => self.log.push((s.u(0), s.u(1), s.v.clone().unwrap())),
            ("begin", None) => {
                if !self.redo {
                    self.pre = self.disk.clone();
                    self.full = self.disk.clone();
                    for (f, p, v) in &self.log {
                        wr(self.o, *f, *p, &mut self.full, n, v)?;
                    }
                }
                self.through = s.n[0] == 0;
                self.ram = self.disk.clone();
                self.mram = self.mdisk.clone();
                self.arrived = vec![false; n];
                self.pc = Some(0);
            }
            ("do", Some(pc)) if pc < self.log.len() => {
                let (f, p, v) = &self.log[pc];
                wr(self.o, *f, *p, &mut self.ram, n, v)?;
                self.s.tops[*f].node.enc(v, &mut self.mram);
                // bytes flushed before this write have to be flushed again
                for b in &self.s.tops[*f].cover {
                    self.arrived[b / 8] = false;
                }
                if self.through {
                    self.disk = self.ram.clone();
                    self.mdisk = self.mram.clone();
                    self.audit(st, "update in progress")?;
                }
                self.pc = Some(pc + 1);
            }
            ("flush", Some(_)) if !self.through => {
                self.disk[s.u(0)] = self.ram[s.u(0)];
                self.mdisk[s.u(0)] = self.mram[s.u(0)];
                self.arrived[s.u(0)] = true;
            }
            ("crash", Some(pc)) => {
                st.fault(match (self.through, pc) {
                    (true, 0) | (false, 0) => "crash before the first write",
                    (true, _) => "crash between field writes",
                    (false, _) if pc == self.log.len() => "crash during write-back",
                    (false, _) => "crash with dirty bytes in memory",
                });
                if self.redo {
                    st.fault("crash during recovery");
                }
                self.audit(st, "after crash")?;
                // new or old according to the bytes that arrived, judged by the real code alone
                if !self.through && pc == self.log.len() && !self.redo {
                    for (f, t) in self.s.tops.iter().enumerate() {
                        let got = self.o.read(f, &self.disk);
                        st.check();
                        if t.cover.iter().all(|b| self.arrived[b / 8]) {
                            same(&format!("arrived field not new: {}", t.name), &self.o.read(f, &self.full), &got)?;
                        }
                        if t.cover.iter().all(|b| self.disk[b / 8] == self.pre[b / 8]) {
                            same(&format!("untouched field not old: {}", t.name), &self.o.read(f, &self.pre), &got)?;
                        }
                    }
                }
                self.pc = None;
                self.redo = true;
            }
            ("end", Some(pc)) if pc == self.log.len() && (self.through || self.arrived.iter().all(|x| *x)) => {
                st.check();
                sameb("finished update differs from an uninterrupted one", &self.full, &self.disk)?;
                if self.redo {
                    st.probe("update finished after a crash");
                }
                self.audit(st, "after update")?;
                self.pc = None;
                self.redo = false;
                self.log.clear();
            }
            _ => {}
        }
        Ok(())
    }
    /// Faults stop: recovery completes.
    fn finish(&mut self, st: &mut Stats) -> Result<(), String> {
        if self.pc.is_some() || self.redo {
            self.pc = None;
            if self.redo || self.log.is_empty() == false {
                self.redo = true;
                self.apply(&Step::new("begin", &[0]), st)?;
                for _ in 0..self.log.len() {
                    self.apply(&Step::new("do", &[]), st)?;
                }
                self.apply(&Step::new("end", &[]), st)?;
                st.probe("recovered at the end");
            }
        }
        Ok(())
    }
    fn digest(&self) -> u64 {
        hash_bytes(hash_bytes(self.id ^ (self.pc.unwrap_or(99) as u64) << 32, &self.ram), &self.disk)
    }
}

// ------------------------------------------------------------------ C08: hex text link

const INSERTS: [&[u8]; 16] = [b"0x", b"0X", b"0", b"00", b" ", b"\n", b"\r\n", b"\t", b":", b"-", b"_", b"#", b"\\x", b"\xef\xbb\xbf", b"\0", b"+"];

struct Hex<'a> {
    s: &'a Schema,
    o: &'static dyn Ops,
    text: Vec<u8>,
    sched: Sched,
    faults: Vec<&'static str>,
    id: u64,
}
impl<'a> Hex<'a> {
    fn new(cx: &'a Cx, i: usize, r: &mut Rng) -> Self {
        let faults: Vec<&str> = ["substitute", "case", "cut", "extend", "digit", "insert", "drop", "swap"].iter().copied().filter(|_| r.pm(500)).collect();
        Hex { s: cx.s(i), o: cx.ops[i], text: vec![], sched: Sched::new(r, 3), faults, id: i as u64 }
    }
}
impl World for Hex<'_> {
    fn next(&mut self, r: &mut Rng) -> Option<Step> {
        let a = self.sched.turn(r);
        let h = self.s.bytes * 2;
        let mut s = match a {
            0 if r.pm(400) || self.text.is_empty() => Step::new("send", &[r.below(2) as i64]).v(self.s.gen(r, false)),
            0 | 1 if !self.faults.is_empty() && !self.text.is_empty() => {
                let p = r.below(self.text.len()) as i64;
                match *r.pick(&self.faults) {
                    "substitute" => {
                        let c = match r.below(4) {
                            0 => r.next() as u8,
                            1 => *r.pick(b"/:@G`g "),
                            2 => 0x80 | r.next() as u8,
                            _ => *r.pick(b"0123456789abcdefABCDEF"),
                        };
                        Step::new("set", &[p, c as i64])
                    }
                    "digit" => Step::new("set", &[p, *r.pick(b"0123456789abcdefABCDEF") as i64]),
                    "case" => Step::new("case", &[p]),
                    "cut" => Step::new("cut", &[if r.pm(700) { (h - 1 - r.below(2)) as i64 } else { r.below(h + 1) as i64 }]),
                    "insert" => {
                        // what people and programs put into hex texts: prefixes, separators, line ends, byte order marks.
                        let at = if r.pm(500) { 0 } else { *r.pick(&[p, p & !1, self.text.len() as i64]) };
                        Step::new("insert", &[at]).b(r.pick(&INSERTS).to_vec())
                    }
                    "drop" => Step::new("drop", &[p]),
                    "swap" => Step::new("swap", &[p, r.below(self.text.len()) as i64]),
                    _ => Step::new("extend", &[r.below(256) as i64]),
                }
            }
            _ => Step::new("receive", &[r.below(3) as i64]),
        };
        s.t = self.sched.now;
        Some(s)
    }
    fn apply(&mut self, s: &Step, st: &mut Stats) -> Result<(), String> {
        let n = self.s.bytes;
        match s.op.as_str() {
            "send" => {
                let v = s.v.as_ref().unwrap();
                let want: String = self.o.encode(v).iter().map(|b| if s.n[0] == 1 { format!("{b:02X}") } else { format!("{b:02x}") }).collect();
                self.text = self.o.hex(v, s.n[0] == 1);
                st.check();
                sameb("hex text wrong", want.as_bytes(), &self.text)?;
            }
            "set" => {
                st.fault("substituted character");
                if let Some(c) = self.text.get_mut(s.u(0)) {
                    *c = s.n[1] as u8;
                }
            }
            "case" => {
                st.fault("changed case");
                if let Some(c) = self.text.get_mut(s.u(0)) {
                    *c = if c.is_ascii_uppercase() { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() };
                }
            }
            "cut" => {
                if s.u(0) < self.text.len() {
                    st.fault("text cut short");
                    self.text.truncate(s.u(0));
                }
            }
            "extend" => {
                if self.text.len() >= 2 * n {
                    st.fault("text extended");
                    self.text.push(s.n[0] as u8);
                }
            }
            "insert" => {
                st.fault("characters inserted");
                let at = s.u(0).min(self.text.len());
                self.text.splice(at..at, s.b.iter().copied());
            }
            "drop" => {
                if s.u(0) < self.text.len() {
                    st.fault("character lost");
                    self.text.remove(s.u(0));
                }
            }
            "swap" => {
                if s.u(0) < self.text.len() && s.u(1) < self.text.len() {
                    st.fault("characters swapped");
                    self.text.swap(s.u(0), s.u(1));
                }
            }
            "receive" => {
                let short = self.text.len() < 2 * n;
                if short && s.n[0] == 0 {
                    return Ok(());
                }
                let digit = |c: u8| (c as char).to_digit(16);
                let want = if short {
                    Err(HexErr::Len(self.text.len(), 2 * n))
                } else if let Some(i) = (0..2 * n).find(|i| digit(self.text[*i]).is_none()) {
                    st.probe("bad digit refused");
                    Err(HexErr::Char(self.text[i] as u32, i))
                } else {
                    let b: Vec<u8> = (0..n).map(|i| (digit(self.text[2 * i]).unwrap() * 16 + digit(self.text[2 * i + 1]).unwrap()) as u8).collect();
                    Ok(self.o.decode(&b))
                };
                let got = match s.n[0] {
                    0 => self.o.from_hex(&self.text[..2 * n]),
                    1 => self.o.from_hex_slice(&self.text),
                    _ => {
                        let mut c = self.text.clone();
                        let g = self.o.from_hex_vec(&mut c);
                        sameb("from_hex_vec changed its input", &self.text, &c)?;
                        g
                    }
                };
                st.check();
                if got != want {
                    return Err(format!("hex decode {} wrong: {:?} expected {want:?}, got {got:?}", s.n[0], String::from_utf8_lossy(&self.text)));
                }
            }
            o => panic!("harness: step {o}"),
        }
        Ok(())
    }
    fn digest(&self) -> u64 {
        hash_bytes(self.id, &self.text)
    }
}

// ------------------------------------------------------------------ C09: enum message bus

struct Bus<'a> {
    s: &'a Schema,
    o: &'static dyn Ops,
    real: Vec<u8>,
    model: Vec<u8>,
    sched: Sched,
    id: u64,
    faults: u32,
}
impl<'a> Bus<'a> {
    fn new(cx: &'a Cx, i: usize, r: &mut Rng) -> Self {
        let z = vec![0; cx.s(i).bytes];
        Bus { s: cx.s(i), o: cx.ops[i], real: z.clone(), model: z, sched: Sched::new(r, 4), id: i as u64, faults: *r.pick(&[0, 200, 600]) }
    }
    fn vars(&self) -> &'a [simcore::model::Var] {
        match &self.s.root {
            Node::E { vars, .. } => vars,
            _ => panic!("harness: not an enum"),
        }
    }
    fn ident(&self, v: &Val, st: &mut Stats) -> Result<(), String> {
        let Val::E(i, l) = v else { panic!("harness: not an enum") };
        let var = &self.vars()[*i];
        let own = match l.first() {
            Some(Val::U(x)) if var.cap => *x,
            _ => var.id,
        };
        st.check();
        let id = self.o.id(v);
        if id != own {
            return Err(format!("id wrong: {v} says {id}, its id is {own}"));
        }
        let bits = self.s.tops[0].cover.len() as u32;
        for x in [own, own ^ 1, own.wrapping_add(1) & simcore::model::mask(bits), 0] {
            if self.o.id_eq(v, x) != (x == own) {
                return Err(format!("comparison wrong: {v} == {x} with id {own}"));
            }
        }
        Ok(())
    }
}
impl World for Bus<'_> {
    fn next(&mut self, r: &mut Rng) -> Option<Step> {
        let a = self.sched.turn(r);
        let t = &self.s.tops[0];
        let bits = t.cover.len() as u32;
        let mut s = match a {
            0 if r.pm(self.faults) => {
                let (off, b) = damage(r, self.s.bytes);
                Step::new("corrupt", &[off as i64]).b(b)
            }
            0 | 1 => match r.below(3) {
                0 => {
                    // a newer peer: any id
                    let x = match r.below(4) {
                        0 => r.pick(self.vars()).id ^ (1 << r.below(bits as usize)),
                        1 => r.wide(),
                        2 => r.below(8) as u128,
                        _ => r.pick(self.vars()).id,
                    };
                    Step::new("retag", &[a as i64]).v(Val::U(x & simcore::model::mask(bits)))
                }
                _ => Step::new("send", &[a as i64]).v(self.s.gen(r, true)),
            },
            2 => {
                let fs: Vec<usize> = (1..self.s.tops.len()).filter(|f| self.s.tops[*f].writable).collect();
                if fs.is_empty() || r.pm(300) {
                    Step::new("forward", &[a as i64])
                } else {
                    let f = *r.pick(&fs);
                    let t = &self.s.tops[f];
                    Step::new("payload", &[a as i64, f as i64, r.below(wpaths(t)) as i64]).v(t.node.gen(r, false))
                }
            }
            _ => Step::new("dispatch", &[a as i64, r.below(3) as i64]),
        };
        s.t = self.sched.now;
        Some(s)
    }
    fn apply(&mut self, s: &Step, st: &mut Stats) -> Result<(), String> {
        match s.op.as_str() {
            "corrupt" => {
                st.fault("corrupted message");
                xor(&mut self.real, s.u(0), &s.b);
                xor(&mut self.model, s.u(0), &s.b);
            }
            "send" => {
                let v = s.v.as_ref().unwrap();
                self.ident(v, st)?;
                self.real = self.o.encode(v);
                self.model = self.s.enc(v);
                sameb(&format!("encode: {v}"), &self.model, &self.real)?;
            }
            "retag" => {
                let v = s.v.as_ref().unwrap();
                if !self.vars().iter().any(|x| Val::U(x.id) == *v) {
                    st.fault("unknown id");
                }
                self.o.write(0, &mut self.real, v);
                self.s.tops[0].node.enc(v, &mut self.model);
                st.check();
                sameb(&format!("id write: {v}"), &self.model, &self.real)?;
            }
            "payload" => {
                let v = s.v.as_ref().unwrap();
                wr(self.o, s.u(1), s.u(2), &mut self.real, self.s.bytes, v)?;
                self.s.tops[s.u(1)].node.enc(v, &mut self.model);
                st.check();
                sameb(&format!("payload write: {} := {v}", self.s.tops[s.u(1)].name), &self.model, &self.real)?;
            }
            "dispatch" => {
                let id = self.s.tops[0].node.dec(&self.model);
                st.check();
                same("id read", &id, &self.o.read(0, &self.real))?;
                let x = self.o.read_slice(0, &self.real).map_err(|e| format!("refused: id slice read says {e:?}"))?;
                same("id slice read", &id, &x)?;
                let v = match s.u(1) {
                    0 => self.o.decode(&self.real),
                    1 => self.o.from_slice(&self.real).map_err(|e| format!("refused: from_slice says {e:?}"))?,
                    _ => self.o.from_vec(&mut self.real.clone()).map_err(|e| format!("refused: from_vec says {e:?}"))?,
                };
                same(&format!("dispatch of id {id}"), &self.s.dec(&self.model), &v)?;
                self.ident(&v, st)?;
            }
            "forward" => {
                let v = self.o.decode(&self.real);
                self.real = self.o.encode(&v);
                let w = self.s.dec(&self.model);
                self.model = self.s.enc(&w);
                st.check();
                sameb(&format!("forwarded message: {v}"), &self.model, &self.real)?;
            }
            o => panic!("harness: step {o}"),
        }
        Ok(())
    }
    fn digest(&self) -> u64 {
        hash_bytes(self.id, &self.real)
    }
}

// ------------------------------------------------------------------ C11: fleet of library and reference nodes

struct Fleet<'a> {
    cx: &'a Cx<'a>,
    ids: Vec<usize>,
    /// (sent by a library node, schema, bytes, value)
    flight: Vec<(bool, usize, Vec<u8>, Val)>,
    sched: Sched,
    rates: [u32; 4],
    sized: bool,
    got: u64,
}
impl<'a> Fleet<'a> {
    fn new(cx: &'a Cx, ids: &[usize], r: &mut Rng) -> Self {
        Fleet { cx, ids: ids.to_vec(), flight: vec![], sched: Sched::new(r, 4), rates: [*r.pick(&[0, 100]), *r.pick(&[0, 150]), *r.pick(&[0, 500]), *r.pick(&[0, 30])], sized: false, got: 0 }
    }
}
impl World for Fleet<'_> {
    fn next(&mut self, r: &mut Rng) -> Option<Step> {
        let a = self.sched.turn(r);
        let k = r.below(self.ids.len());
        let sc = self.cx.s(self.ids[k]);
        let mut s = if !self.sized {
            Step::new("negotiate", &[])
        } else {
            match a {
                0 => Step::new("library sends", &[k as i64]).v(sc.gen(r, false)),
                1 => {
                    let b = noise(r, sc.bytes);
                    Step::new("reference sends", &[k as i64]).v(sc.gen(r, true)).b(b)
                }
                _ if !self.flight.is_empty() => {
                    let k = if r.pm(self.rates[2]) { r.below(self.flight.len()) } else { 0 };
                    let op = if r.pm(self.rates[0]) {
                        "drop"
                    } else if r.pm(self.rates[1]) {
                        "duplicate"
                    } else if r.pm(self.rates[3]) {
                        "restart"
                    } else {
                        "deliver"
                    };
                    Step::new(op, &[k as i64])
                }
                _ => Step::new("idle", &[]),
            }
        };
        s.t = self.sched.now;
        Some(s)
    }
    fn apply(&mut self, s: &Step, st: &mut Stats) -> Result<(), String> {
        match s.op.as_str() {
            "negotiate" => {
                self.sized = true;
                for i in &self.ids {
                    let sc = self.cx.s(*i);
                    st.check();
                    if self.cx.ops[*i].sizes() != (sc.bytes, sc.bits) {
                        return Err(format!("sizes differ: {} is {} bytes and {} bits, published {:?}", sc.name, sc.bytes, sc.bits, self.cx.ops[*i].sizes()));
                    }
                    if let Some(x) = self.cx.ops[*i].variant_sizes().iter().find(|x| **x != (sc.bytes, sc.bits)) {
                        return Err(format!("variant sizes differ: {} is {} bytes and {} bits, published {x:?}", sc.name, sc.bytes, sc.bits));
                    }
                }
            }
            "library sends" => {
                let (i, v) = (self.ids[s.u(0)], s.v.as_ref().unwrap());
                self.flight.push((true, i, self.cx.ops[i].encode(v), v.clone()));
            }
            "reference sends" => {
                let (i, v) = (self.ids[s.u(0)], s.v.as_ref().unwrap());
                let sc = self.cx.s(i);
                let mut b = sc.enc(v);
                // bits that carry nothing may hold anything
                let mut used = vec![0u8; sc.bytes];
                let mut own = vec![false; sc.bytes * 8];
                sc.tops.iter().for_each(|t| t.cover.iter().for_each(|p| own[*p] = true));
                own.iter().enumerate().for_each(|(p, o)| used[p / 8] |= (*o as u8) << (7 - p % 8));
                for k in 0..b.len() {
                    b[k] |= s.b[k] & !used[k];
                }
                self.flight.push((false, i, b, v.clone()));
            }
            "drop" | "duplicate" | "deliver" | "restart" => {
                let k = s.u(0);
                if k >= self.flight.len() {
                    return Ok(());
                }
                if k > 0 {
                    st.fault("reordering");
                }
                match s.op.as_str() {
                    "drop" => {
                        st.fault("loss");
                        self.flight.remove(k);
                        return Ok(());
                    }
                    "restart" => {
                        st.fault("node restart");
                        self.flight.retain(|m| m.0);
                        return Ok(());
                    }
                    "duplicate" => st.fault("duplication"),
                    _ => {}
                }
                let (lib, i, b, v) = self.flight[k].clone();
                if s.op == "deliver" {
                    self.flight.remove(k);
                }
                let sc = self.cx.s(i);
                self.got = hash_bytes(i as u64, &b);
                st.check();
                if lib {
                    let want = sc.enc(&v);
                    sameb(&format!("reference node misreads a message: {v}"), &want, &b)?;
                } else {
                    let want = sc.dec(&b);
                    let got = self.cx.ops[i].decode(&b);
                    same(&format!("library misreads a message: {}", hexs(&b)), &want, &got)?;
                    for (f, t) in sc.tops.iter().enumerate() {
                        same(&format!("library misreads a field: {} in {}", t.name, hexs(&b)), &t.node.dec(&b), &self.cx.ops[i].read(f, &b))?;
                    }
                }
            }
            _ => {}
        }
        Ok(())
    }
    fn digest(&self) -> u64 {
        self.flight.iter().fold(self.got, |h, m| hash_bytes(h, &m.2))
    }
}

// ------------------------------------------------------------------ C12: relays

struct Relay<'a> {
    cx: &'a Cx<'a>,
    ids: Vec<usize>,
    /// (schema, bytes, hops since injected, value once known)
    msgs: Vec<(usize, Vec<u8>, usize, Option<Val>)>,
    sched: Sched,
    faults: u32,
}
impl<'a> Relay<'a> {
    fn new(cx: &'a Cx, ids: &[usize], r: &mut Rng) -> Self {
        Relay { cx, ids: ids.to_vec(), msgs: vec![], sched: Sched::new(r, 4), faults: *r.pick(&[0, 200, 500]) }
    }
}
impl World for Relay<'_> {
    fn next(&mut self, r: &mut Rng) -> Option<Step> {
        let a = self.sched.turn(r);
        let k = r.below(self.ids.len());
        let sc = self.cx.s(self.ids[k]);
        let mut s = match a {
            0 if r.pm(500) => {
                let b = noise(r, sc.bytes);
                Step::new("foreign", &[k as i64]).b(b)
            }
            0 => {
                let fit = r.pm(700);
                Step::new("originate", &[k as i64, fit as i64]).v(sc.gen(r, fit))
            }
            1 if !self.msgs.is_empty() && r.pm(self.faults) => {
                let m = r.below(self.msgs.len());
                match r.below(3) {
                    0 => Step::new("duplicate", &[m as i64]),
                    1 => Step::new("lose", &[m as i64]),
                    _ => {
                        let (off, b) = damage(r, self.msgs[m].1.len());
                        Step::new("corrupt", &[m as i64, off as i64]).b(b)
                    }
                }
            }
            _ if !self.msgs.is_empty() => Step::new("hop", &[r.below(self.msgs.len()) as i64, r.below(4) as i64]),
            _ => Step::new("idle", &[]),
        };
        s.t = self.sched.now;
        Some(s)
    }
    fn apply(&mut self, s: &Step, st: &mut Stats) -> Result<(), String> {
        match s.op.as_str() {
            "foreign" => self.msgs.push((self.ids[s.u(0)], s.b.clone(), 0, None)),
            "originate" => {
                let (i, v) = (self.ids[s.u(0)], s.v.as_ref().unwrap());
                let (sc, o) = (self.cx.s(i), self.cx.ops[i]);
                let b = o.encode(v);
                let back = o.decode(&b);
                let w = settle(sc, v);
                st.check();
                same(&format!("value changed by encode and decode: {v}"), &w, &back)?;
                // a captured id equal to another variant's makes the bytes that variant's
                let settled = sc.enc(&sc.dec(&b)) == b;
                self.msgs.push((i, b, settled as usize, settled.then_some(back)));
            }
            "duplicate" | "lose" | "corrupt" => {
                let m = s.u(0);
                if m < self.msgs.len() {
                    match s.op.as_str() {
                        "duplicate" => {
                            st.fault("duplication");
                            let c = self.msgs[m].clone();
                            self.msgs.push(c);
                        }
                        "lose" => {
                            st.fault("loss");
                            self.msgs.remove(m);
                        }
                        _ => {
                            st.fault("corruption on the way");
                            let x = &mut self.msgs[m];
                            if s.u(1) < x.1.len() {
                                xor(&mut x.1, s.u(1), &s.b);
                            }
                            (x.2, x.3) = (0, None);
                        }
                    }
                }
            }
            "hop" => {
                if let Some((i, b, hops, val)) = self.msgs.get_mut(s.u(0)) {
                    let (sc, o) = (self.cx.s(*i), self.cx.ops[*i]);
                    let v = match s.u(1) {
                        0 => o.decode(b),
                        1 => o.from_slice(b).map_err(|e| format!("refused: from_slice says {e:?}"))?,
                        2 => o.from_vec(&mut b.clone()).map_err(|e| format!("refused: from_vec says {e:?}"))?,
                        _ => {
                            let h = hexs(b);
                            o.from_hex_slice(h.as_bytes()).map_err(|e| format!("refused: from_hex_slice says {e:?}"))?
                        }
                    };
                    let out = o.encode(&v);
                    st.check();
                    if *hops == 0 {
                        // the first hop settles: what the value cannot hold is gone, the rest is kept
                        sameb(&format!("first hop changed owned bits: {} {v}", hexs(b)), &sc.enc(&sc.dec(b)), &out)?;
                        st.probe("foreign message settled");
                    } else {
                        if let Some(w) = val {
                            same("value changed by a later hop", w, &v)?;
                        }
                        sameb("bytes changed by a later hop", b, &out)?;
                        st.probe("repeated hop");
                    }
                    // an enum whose id is cut off by its field may need another hop
                    let settled = sc.enc(&sc.dec(&out)) == out;
                    *val = settled.then(|| o.decode(&out));
                    *b = out;
                    *hops = if settled { *hops + 1 } else { 0 };
                }
            }
            _ => {}
        }
        Ok(())
    }
    fn digest(&self) -> u64 {
        self.msgs.iter().fold(self.msgs.len() as u64, |h, m| hash_bytes(h ^ m.0 as u64, &m.1))
    }
}

// ------------------------------------------------------------------ C14: nested parts

struct Parts<'a> {
    cx: &'a Cx<'a>,
    s: &'a Schema,
    o: &'static dyn Ops,
    b: Vec<u8>,
    sched: Sched,
    id: u64,
    faults: u32,
}
impl<'a> Parts<'a> {
    fn new(cx: &'a Cx, i: usize, r: &mut Rng) -> Self {
        Parts { cx, s: cx.s(i), o: cx.ops[i], b: vec![0; cx.s(i).bytes], sched: Sched::new(r, 4), id: i as u64, faults: *r.pick(&[100, 400, 1000]) }
    }
    fn inner(&self, k: usize) -> (&'a Schema, &'static dyn Ops) {
        let i = self.cx.by_name[self.s.nests[k].inner.as_str()];
        (self.cx.s(i), self.cx.ops[i])
    }
    fn extract(&self, map: &[i32]) -> Vec<u8> {
        let mut o = vec![0; map.len() / 8];
        for (i, p) in map.iter().enumerate() {
            if *p >= 0 && self.b[*p as usize / 8] & (0x80 >> (p % 8)) != 0 {
                o[i / 8] |= 0x80 >> (i % 8);
            }
        }
        o
    }
    fn insert(b: &mut [u8], map: &[i32], x: &[u8]) {
        for (i, p) in map.iter().enumerate() {
            if *p >= 0 {
                let m = 0x80u8 >> (p % 8);
                if x[i / 8] & (0x80 >> (i % 8)) != 0 {
                    b[*p as usize / 8] |= m;
                } else {
                    b[*p as usize / 8] &= !m;
                }
            }
        }
    }
    /// reads through the container and compares with decoding each part on its own
    fn look(&self, k: usize, path: usize, st: &mut Stats) -> Result<Val, String> {
        let nest = &self.s.nests[k];
        let (_, io) = self.inner(k);
        let got = rd(self.o, nest.top, path, &mut self.b.clone(), self.s.bytes)?;
        let parts: Vec<Val> = nest.maps.iter().map(|m| io.decode(&self.extract(m))).collect();
        let want = if nest.array { Val::A(parts) } else { parts[0].clone() };
        st.check();
        same(&format!("nested read differs from decoding the part: {} in {}", self.s.tops[nest.top].name, hexs(&self.b)), &want, &got)?;
        Ok(got)
    }
    fn save(&mut self, k: usize, path: usize, v: &Val, st: &mut Stats) -> Result<(), String> {
        let nest = &self.s.nests[k];
        let (_, io) = self.inner(k);
        let mut want = self.b.clone();
        for (j, m) in nest.maps.iter().enumerate() {
            let part = if nest.array { &v.s()[j] } else { v };
            Self::insert(&mut want, m, &io.encode(part));
        }
        let before = self.b.clone();
        wr(self.o, nest.top, path, &mut self.b, self.s.bytes, v)?;
        st.check();
        sameb(&format!("nested write differs from inserting the part: {} := {v} in {}", self.s.tops[nest.top].name, hexs(&before)), &want, &self.b)
    }
}
impl World for Parts<'_> {
    fn next(&mut self, r: &mut Rng) -> Option<Step> {
        let a = self.sched.turn(r);
        let k = r.below(self.s.nests.len());
        let t = &self.s.tops[self.s.nests[k].top];
        let mut s = match a {
            0 if r.pm(self.faults) => {
                let (off, b) = damage(r, self.s.bytes);
                Step::new("foreign", &[off as i64]).b(b)
            }
            1 => {
                let f = r.below(self.s.tops.len());
                let t = &self.s.tops[f];
                if t.writable {
                    Step::new("neighbour", &[f as i64]).v(t.node.gen(r, false))
                } else {
                    Step::new("read", &[k as i64, 0])
                }
            }
            2 => match r.below(3) {
                0 => Step::new("read", &[k as i64, r.below(rpaths(t)) as i64]),
                1 => Step::new("whole", &[]).v(self.s.gen(r, false)),
                _ => Step::new("write", &[k as i64, r.below(wpaths(t)) as i64]).v(t.node.gen(r, false)),
            },
            _ => {
                // update one field of one part with the inner type's own accessors
                let (is, _) = self.inner(k);
                let fs: Vec<usize> = (0..is.tops.len()).filter(|f| is.tops[*f].writable).collect();
                let f = *r.pick(&fs);
                let e = r.below(self.s.nests[k].maps.len());
                Step::new("part", &[k as i64, e as i64, f as i64]).v(is.tops[f].node.gen(r, false))
            }
        };
        s.t = self.sched.now;
        Some(s)
    }
    fn apply(&mut self, s: &Step, st: &mut Stats) -> Result<(), String> {
        match s.op.as_str() {
            "foreign" => {
                st.fault("foreign write");
                xor(&mut self.b, s.u(0), &s.b);
            }
            "neighbour" => {
                self.o.write(s.u(0), &mut self.b, s.v.as_ref().unwrap());
                for k in 0..self.s.nests.len() {
                    self.look(k, 0, st)?;
                }
            }
            "read" => {
                self.look(s.u(0), s.u(1), st)?;
            }
            "write" => {
                self.save(s.u(0), s.u(1), s.v.as_ref().unwrap(), st)?;
                self.look(s.u(0), 0, st)?;
            }
            "part" => {
                let (k, e) = (s.u(0), s.u(1));
                let (_, io) = self.inner(k);
                let mut v = self.look(k, 0, st)?;
                let mut part = io.encode(if self.s.nests[k].array { &v.s()[e] } else { &v });
                io.write(s.u(2), &mut part, s.v.as_ref().unwrap());
                let new = io.decode(&part);
                match &mut v {
                    Val::A(l) if self.s.nests[k].array => l[e] = new,
                    v => *v = new,
                }
                self.save(k, 0, &v, st)?;
                st.probe("part updated in place");
            }
            "whole" => {
                let v = s.v.as_ref().unwrap();
                let b = self.o.encode(v);
                self.b = b;
                for k in 0..self.s.nests.len() {
                    let nest = &self.s.nests[k];
                    let t = &self.s.tops[nest.top];
                    let x = match (t.at, v) {
                        (Some((vi, fi)), Val::E(i, l)) if *i == vi => &l[fi],
                        (None, v) => &v.s()[nest.top],
                        _ => continue,
                    };
                    if !t.w {
                        continue;
                    }
                    let (_, io) = self.inner(k);
                    for (j, m) in nest.maps.iter().enumerate() {
                        let part = io.encode(if nest.array { &x.s()[j] } else { x });
                        let mut want = self.b.clone();
                        Self::insert(&mut want, m, &part);
                        st.check();
                        sameb(&format!("part of a whole encode differs: {} of {v}", t.name), &want, &self.b)?;
                    }
                }
            }
            o => panic!("harness: step {o}"),
        }
        Ok(())
    }
    fn digest(&self) -> u64 {
        hash_bytes(self.id, &self.b)
    }
}
