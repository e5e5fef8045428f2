//! The harness' own syntax of interaction terms, independent of the tool's.
use crate::engine::Src;
use hibou_label::core::execution::trace::trace::{TraceAction, TraceActionKind};
use hibou_label::core::general_context::GeneralContext;
use hibou_label::core::language::syntax::action::{CommunicationSynchronicity, EmissionAction, EmissionTargetRef, ReceptionAction};
use hibou_label::core::language::syntax::interaction::{Interaction, LoopKind};
use std::collections::BTreeSet;

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
pub enum LK {
    P,
    W,
    H,
    S,
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Act {
    pub lf: usize,
    pub emit: bool,
    pub ms: usize,
}

impl std::fmt::Debug for Act {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "l{}{}m{}", self.lf, if self.emit { "!" } else { "?" }, self.ms)
    }
}

pub fn act(lf: usize, emit: bool, ms: usize) -> Act {
    Act { lf, emit, ms }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
pub enum Tgt {
    Lf(usize),
    Gt(usize),
}

#[derive(Clone, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
pub enum T {
    Empty,
    Em { lf: usize, ms: usize, sync: bool, tgts: Vec<Tgt> },
    Re { gt: Option<usize>, ms: usize, sync: bool, lfs: Vec<usize> },
    Strict(Box<T>, Box<T>),
    Seq(Box<T>, Box<T>),
    CoReg(Vec<usize>, Box<T>, Box<T>),
    Alt(Box<T>, Box<T>),
    Par(Box<T>, Box<T>),
    Loop(LK, Box<T>),
    Sync(Vec<Act>, Box<T>, Box<T>),
}

pub fn b(t: T) -> Box<T> {
    Box::new(t)
}

impl T {
    pub fn size(&self) -> usize {
        match self {
            T::Empty | T::Em { .. } | T::Re { .. } => 1,
            T::Strict(a, b) | T::Seq(a, b) | T::CoReg(_, a, b) | T::Alt(a, b) | T::Par(a, b) | T::Sync(_, a, b) => 1 + a.size() + b.size(),
            T::Loop(_, a) => 1 + a.size(),
        }
    }
    pub fn any(&self, f: &mut dyn FnMut(&T) -> bool) -> bool {
        if f(self) {
            return true;
        }
        match self {
            T::Empty | T::Em { .. } | T::Re { .. } => false,
            T::Strict(a, b) | T::Seq(a, b) | T::CoReg(_, a, b) | T::Alt(a, b) | T::Par(a, b) | T::Sync(_, a, b) => a.any(f) || b.any(f),
            T::Loop(_, a) => a.any(f),
        }
    }
    pub fn has_loop(&self) -> bool {
        self.any(&mut |t| matches!(t, T::Loop(..)))
    }
    pub fn loops(&self) -> usize {
        let mut n = 0;
        self.any(&mut |t| {
            if matches!(t, T::Loop(..)) {
                n += 1
            }
            false
        });
        n
    }
    pub fn loop_nest(&self) -> usize {
        match self {
            T::Empty | T::Em { .. } | T::Re { .. } => 0,
            T::Strict(a, b) | T::Seq(a, b) | T::CoReg(_, a, b) | T::Alt(a, b) | T::Par(a, b) | T::Sync(_, a, b) => a.loop_nest().max(b.loop_nest()),
            T::Loop(_, a) => 1 + a.loop_nest(),
        }
    }
    pub fn has_sync_op(&self) -> bool {
        self.any(&mut |t| matches!(t, T::Sync(..)))
    }
    pub fn has_coreg(&self) -> bool {
        self.any(&mut |t| matches!(t, T::CoReg(..)))
    }
    pub fn has_sync_comm(&self) -> bool {
        self.any(&mut |t| matches!(t, T::Em { sync: true, .. } | T::Re { sync: true, .. }))
    }
    pub fn has_multi(&self) -> bool {
        self.any(&mut |t| match t {
            T::Em { sync: true, tgts, .. } => tgts.iter().any(|t| matches!(t, Tgt::Lf(_))),
            T::Re { sync: true, lfs, .. } => lfs.len() > 1,
            T::Sync(..) => true,
            _ => false,
        })
    }
    pub fn has_gate(&self) -> bool {
        self.any(&mut |t| match t {
            T::Em { tgts, .. } => tgts.iter().any(|t| matches!(t, Tgt::Gt(_))),
            T::Re { gt, .. } => gt.is_some(),
            _ => false,
        })
    }
    pub fn has_loop_kind(&self, k: LK) -> bool {
        self.any(&mut |t| matches!(t, T::Loop(k2,_) if *k2 == k))
    }
    pub fn acts(&self) -> BTreeSet<Act> {
        let mut s = BTreeSet::new();
        self.any(&mut |t| {
            match t {
                T::Em { lf, ms, tgts, .. } => {
                    s.insert(act(*lf, true, *ms));
                    for t in tgts {
                        if let Tgt::Lf(l) = t {
                            s.insert(act(*l, false, *ms));
                        }
                    }
                }
                T::Re { ms, lfs, .. } => {
                    for l in lfs {
                        s.insert(act(*l, false, *ms));
                    }
                }
                _ => {}
            }
            false
        });
        s
    }
    pub fn lfs(&self) -> BTreeSet<usize> {
        self.acts().into_iter().map(|a| a.lf).collect()
    }

    pub fn to_i(&self) -> Interaction {
        let bx = |t: &T| Box::new(t.to_i());
        let sy = |s: &bool| if *s { CommunicationSynchronicity::Synchronous } else { CommunicationSynchronicity::Asynchronous };
        match self {
            T::Empty => Interaction::Empty,
            T::Em { lf, ms, sync, tgts } => Interaction::Emission(EmissionAction::new(
                *lf,
                *ms,
                sy(sync),
                tgts.iter()
                    .map(|t| match t {
                        Tgt::Lf(l) => EmissionTargetRef::Lifeline(*l),
                        Tgt::Gt(g) => EmissionTargetRef::Gate(*g),
                    })
                    .collect(),
            )),
            T::Re { gt, ms, sync, lfs } => Interaction::Reception(ReceptionAction::new(*gt, *ms, sy(sync), lfs.clone())),
            T::Strict(a, b) => Interaction::Strict(bx(a), bx(b)),
            T::Seq(a, b) => Interaction::Seq(bx(a), bx(b)),
            T::CoReg(c, a, b) => Interaction::CoReg(c.clone(), bx(a), bx(b)),
            T::Alt(a, b) => Interaction::Alt(bx(a), bx(b)),
            T::Par(a, b) => Interaction::Par(bx(a), bx(b)),
            T::Loop(k, a) => Interaction::Loop(
                match k {
                    LK::P => LoopKind::PInterleaving,
                    LK::W => LoopKind::WWeakSeq,
                    LK::H => LoopKind::HHeadFirstWS,
                    LK::S => LoopKind::SStrictSeq,
                },
                bx(a),
            ),
            T::Sync(s, a, b) => Interaction::Sync(s.iter().map(|x| x.to_ta()).collect(), bx(a), bx(b)),
        }
    }

    pub fn from_i(i: &Interaction) -> T {
        let bx = |i: &Interaction| Box::new(T::from_i(i));
        let sy = |s: &CommunicationSynchronicity| *s == CommunicationSynchronicity::Synchronous;
        match i {
            Interaction::Empty => T::Empty,
            Interaction::Emission(e) => T::Em {
                lf: e.origin_lf_id,
                ms: e.ms_id,
                sync: sy(&e.synchronicity),
                tgts: e
                    .targets
                    .iter()
                    .map(|t| match t {
                        EmissionTargetRef::Lifeline(l) => Tgt::Lf(*l),
                        EmissionTargetRef::Gate(g) => Tgt::Gt(*g),
                    })
                    .collect(),
            },
            Interaction::Reception(r) => T::Re { gt: r.origin_gt_id, ms: r.ms_id, sync: sy(&r.synchronicity), lfs: r.recipients.clone() },
            Interaction::Strict(a, b) => T::Strict(bx(a), bx(b)),
            Interaction::Seq(a, b) => T::Seq(bx(a), bx(b)),
            Interaction::CoReg(c, a, b) => T::CoReg(c.clone(), bx(a), bx(b)),
            Interaction::Alt(a, b) => T::Alt(bx(a), bx(b)),
            Interaction::Par(a, b) => T::Par(bx(a), bx(b)),
            Interaction::Loop(k, a) => T::Loop(
                match k {
                    LoopKind::PInterleaving => LK::P,
                    LoopKind::WWeakSeq => LK::W,
                    LoopKind::HHeadFirstWS => LK::H,
                    LoopKind::SStrictSeq => LK::S,
                },
                bx(a),
            ),
            Interaction::Sync(s, a, b) => T::Sync(s.iter().map(Act::from_ta).collect(), bx(a), bx(b)),
            Interaction::And(..) => panic!("And"),
        }
    }
}

impl Act {
    pub fn to_ta(&self) -> TraceAction {
        TraceAction::new(self.lf, if self.emit { TraceActionKind::Emission } else { TraceActionKind::Reception }, self.ms)
    }
    pub fn from_ta(t: &TraceAction) -> Act {
        act(t.lf_id, t.act_kind == TraceActionKind::Emission, t.ms_id)
    }
}

impl std::fmt::Display for T {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            T::Empty => write!(f, "o"),
            T::Em { lf, ms, sync, tgts } => {
                write!(f, "l{} -{}m{}->", lf, if *sync { "<synch>" } else { "" }, ms)?;
                let v: Vec<String> = tgts
                    .iter()
                    .map(|t| match t {
                        Tgt::Lf(l) => format!("l{}", l),
                        Tgt::Gt(g) => format!("g{}", g),
                    })
                    .collect();
                if v.is_empty() {
                    write!(f, "|")
                } else {
                    write!(f, "({})", v.join(","))
                }
            }
            T::Re { gt, ms, sync, lfs } => {
                if let Some(g) = gt {
                    write!(f, "g{} ", g)?
                }
                let v: Vec<String> = lfs.iter().map(|l| format!("l{}", l)).collect();
                write!(f, "{}m{}->({})", if *sync { "<synch>" } else { "" }, ms, v.join(","))
            }
            T::Strict(a, b) => write!(f, "strict({}, {})", a, b),
            T::Seq(a, b) => write!(f, "seq({}, {})", a, b),
            T::CoReg(c, a, b) => write!(f, "coreg{:?}({}, {})", c, a, b),
            T::Alt(a, b) => write!(f, "alt({}, {})", a, b),
            T::Par(a, b) => write!(f, "par({}, {})", a, b),
            T::Loop(k, a) => write!(f, "loop{:?}({})", k, a),
            T::Sync(s, a, b) => write!(f, "sync{:?}({}, {})", s, a, b),
        }
    }
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub n_lf: usize,
    pub n_ms: usize,
    pub n_gt: usize,
    pub max_size: usize,
    pub coreg: bool,
    pub sync_op: bool,
    pub sync_comm: bool,
    pub broadcast: bool,
    pub comm: bool,
    pub self_comm: bool,
    pub max_loops: usize,
    pub loop_kinds: Vec<LK>,
    pub par: bool,
    pub strict: bool,
    pub empty: bool,
}

impl Cfg {
    pub fn full() -> Cfg {
        Cfg {
            n_lf: 3,
            n_ms: 2,
            n_gt: 1,
            max_size: 11,
            coreg: true,
            sync_op: true,
            sync_comm: true,
            broadcast: true,
            comm: true,
            self_comm: false,
            max_loops: 2,
            loop_kinds: vec![LK::S, LK::H, LK::W, LK::P],
            par: true,
            strict: true,
            empty: true,
        }
    }
    /// the language of the theory: strict, seq, alt, par, coreg and loops over asynchronous communications
    pub fn plain() -> Cfg {
        Cfg { sync_op: false, sync_comm: false, ..Cfg::full() }
    }
    pub fn ctx(&self) -> GeneralContext {
        mk_ctx(self.n_lf, self.n_ms, self.n_gt)
    }
}

pub fn mk_ctx(n_lf: usize, n_ms: usize, n_gt: usize) -> GeneralContext {
    let mut g = GeneralContext::new();
    for i in 0..n_lf {
        g.add_lf(format!("l{}", i));
    }
    for i in 0..n_ms {
        g.add_msg(format!("m{}", i));
    }
    for i in 0..n_gt {
        g.add_gt(format!("g{}", i));
    }
    g
}

fn gen_lfs(s: &mut Src, n_lf: usize, min: usize, max: usize, not: Option<usize>) -> Vec<usize> {
    let mut pool: Vec<usize> = (0..n_lf).filter(|l| Some(*l) != not).collect();
    let max = max.min(pool.len());
    let k = if max <= min { min.min(max) } else { s.range(min, max) };
    let mut v = vec![];
    for _ in 0..k {
        let i = s.below(pool.len());
        v.push(pool.remove(i));
    }
    v
}

pub fn gen_leaf(s: &mut Src, c: &Cfg) -> T {
    if c.empty && s.chance(1, 14) {
        return T::Empty;
    }
    let ms = s.below(c.n_ms);
    let k = s.below(10);
    let sync = c.sync_comm && s.chance(1, 5);
    if c.comm && k >= 6 && c.n_lf > 1 {
        // communication
        let lf = s.below(c.n_lf);
        let not = if c.self_comm { None } else { Some(lf) };
        let max = if c.broadcast && s.chance(1, 4) { if s.chance(1, 4) { c.n_lf } else { 3 } } else { 1 };
        let mut tgts: Vec<Tgt> = gen_lfs(s, c.n_lf, 1, max, not).into_iter().map(Tgt::Lf).collect();
        if c.n_gt > 0 && c.broadcast && s.chance(1, 12) {
            let at = s.below(tgts.len() + 1);
            tgts.insert(tgts.len() - at, Tgt::Gt(s.below(c.n_gt)));
        }
        return T::Em { lf, ms, sync, tgts };
    }
    if k >= 3 {
        let lf = s.below(c.n_lf);
        let tgts = if c.n_gt > 0 && s.chance(1, 8) { vec![Tgt::Gt(s.below(c.n_gt))] } else { vec![] };
        return T::Em { lf, ms, sync, tgts };
    }
    let max = if c.broadcast && s.chance(1, 4) { if s.chance(1, 4) { c.n_lf } else { s.range(2, 3) } } else { 1 };
    let gt = if c.n_gt > 0 && s.chance(1, 8) { Some(s.below(c.n_gt)) } else { None };
    let lfs = gen_lfs(s, c.n_lf, 1, max, None);
    T::Re { gt, ms, sync, lfs }
}

pub fn gen_term(s: &mut Src, c: &Cfg) -> T {
    let size = s.range(1, c.max_size);
    let mut loops = c.max_loops;
    gen_sized(s, c, size, &mut loops)
}

fn gen_sized(s: &mut Src, c: &Cfg, size: usize, loops: &mut usize) -> T {
    if size <= 1 {
        return gen_leaf(s, c);
    }
    let wl = if *loops > 0 { 3 } else { 0 };
    if size == 2 {
        if wl > 0 {
            *loops -= 1;
            let k = *s.pick(&c.loop_kinds);
            return T::Loop(k, b(gen_sized(s, c, 1, loops)));
        }
        return gen_leaf(s, c);
    }
    let ws = [
        4,
        if c.strict { 3 } else { 0 },
        3,
        if c.par { 2 } else { 0 },
        if c.coreg { 2 } else { 0 },
        if c.sync_op { 2 } else { 0 },
        wl,
    ];
    let k = s.weighted(&ws);
    if k == 6 {
        *loops -= 1;
        let kind = *s.pick(&c.loop_kinds);
        return T::Loop(kind, b(gen_sized(s, c, size - 1, loops)));
    }
    let left = s.range(1, size - 2);
    let a = gen_sized(s, c, left, loops);
    let d = gen_sized(s, c, size - 1 - left, loops);
    match k {
        0 => T::Seq(b(a), b(d)),
        1 => T::Strict(b(a), b(d)),
        2 => T::Alt(b(a), b(d)),
        3 => T::Par(b(a), b(d)),
        4 => {
            let most = if s.chance(1, 4) { c.n_lf } else { 2 };
            let cr = { let mut v = gen_lfs(s, c.n_lf, 1, most, None); v.sort(); v };
            T::CoReg(cr, b(a), b(d))
        }
        _ => {
            // synchronised actions: mostly ones that occur on both sides
            let (mut a, mut d) = (a, d);
            if c.sync_comm && c.comm && c.n_lf > 2 && s.chance(1, 5) {
                // two exchanges with a common action, that each have others
                let ms = s.below(c.n_ms);
                let v = gen_lfs(s, c.n_lf, 3, 3, None);
                let emit = s.chance(1, 2);
                let leaf = |o: usize| {
                    if emit {
                        T::Em { lf: v[0], ms, sync: true, tgts: vec![Tgt::Lf(o)] }
                    } else {
                        T::Em { lf: o, ms, sync: true, tgts: vec![Tgt::Lf(v[0])] }
                    }
                };
                a = if left == 1 { leaf(v[1]) } else { T::Seq(b(a), b(leaf(v[1]))) };
                d = if s.chance(1, 2) { leaf(v[2]) } else { T::Seq(b(leaf(v[2])), b(d)) };
            }
            let sa = a.acts();
            let sd = d.acts();
            let both: Vec<Act> = sa.intersection(&sd).cloned().collect();
            let all: Vec<Act> = sa.union(&sd).cloned().collect();
            let mut set = BTreeSet::new();
            let n = s.range(0, 3);
            for _ in 0..n {
                let pool = if !both.is_empty() && !s.chance(1, 4) { &both } else { &all };
                if !pool.is_empty() {
                    set.insert(*s.pick(pool));
                }
            }
            T::Sync(set.into_iter().collect(), b(a), b(d))
        }
    }
}
