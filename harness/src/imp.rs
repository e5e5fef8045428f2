//! Traces and languages read off the tool's own small-step semantics.
use crate::sem::*;
use crate::term::*;
use hibou_label::core::execution::semantics::execute::execute_interaction;
use hibou_label::core::execution::semantics::frontier::global_frontier;
use hibou_label::core::language::syntax::interaction::Interaction;
use std::collections::{BTreeSet, HashMap};
use std::rc::Rc;

pub struct Stepper {
    pub delayed: bool,
    pub affected: bool,
    memo: HashMap<(Interaction, usize), Rc<Lang>>,
    succ: HashMap<Interaction, Rc<Vec<(BTreeSet<Act>, Interaction)>>>,
    pub states: usize,
    pub cap: usize,
}

impl Stepper {
    pub fn new(delayed: bool, affected: bool, cap: usize) -> Stepper {
        Stepper { delayed, affected, memo: HashMap::new(), succ: HashMap::new(), states: 0, cap }
    }
    pub fn next(&mut self, i: &Interaction) -> Rc<Vec<(BTreeSet<Act>, Interaction)>> {
        if let Some(x) = self.succ.get(i) {
            return x.clone();
        }
        let mut v = vec![];
        for f in global_frontier(i, self.delayed) {
            let r = execute_interaction(i, &f.position, &f.target_lf_ids, self.affected);
            v.push((f.target_actions.iter().map(Act::from_ta).collect(), r.interaction));
        }
        let v = Rc::new(v);
        self.succ.insert(i.clone(), v.clone());
        v
    }
    /// accepted traces of length <= n
    pub fn lang(&mut self, i: &Interaction, n: usize, al: &mut Al) -> R<Rc<Lang>> {
        let key = (i.clone(), n);
        if let Some(x) = self.memo.get(&key) {
            return Ok(x.clone());
        }
        self.states += 1;
        if self.states > self.cap {
            return Err(Overflow);
        }
        let mut out = Lang::new();
        if i.express_empty() {
            out.insert(vec![]);
        }
        if n > 0 {
            for (a, j) in self.next(i).iter() {
                let l = al.id(a.clone());
                for t in self.lang(j, n - 1, al)?.iter() {
                    let mut u = Vec::with_capacity(t.len() + 1);
                    u.push(l);
                    u.extend_from_slice(t);
                    out.insert(u);
                    if out.len() > self.cap {
                        return Err(Overflow);
                    }
                }
            }
        }
        let out = Rc::new(out);
        self.memo.insert(key, out.clone());
        Ok(out)
    }
    /// all words of length <= n that label a path from i (whether or not it can be completed)
    pub fn paths(&mut self, i: &Interaction, n: usize, al: &mut Al) -> R<Lang> {
        let mut out = Lang::new();
        let mut todo = vec![(i.clone(), vec![])];
        let mut seen = std::collections::HashSet::new();
        while let Some((i, t)) = todo.pop() {
            if !seen.insert((i.clone(), t.clone())) {
                continue;
            }
            if seen.len() > self.cap {
                return Err(Overflow);
            }
            if t.len() < n {
                for (a, j) in self.next(&i).iter() {
                    let mut u: Tr = t.clone();
                    u.push(al.id(a.clone()));
                    todo.push((j.clone(), u));
                }
            }
            out.insert(t);
        }
        Ok(out)
    }
}

pub fn lang_of(i: &Interaction, n: usize, al: &mut Al, cap: usize) -> R<Rc<Lang>> {
    Stepper::new(true, false, cap).lang(i, n, al)
}
