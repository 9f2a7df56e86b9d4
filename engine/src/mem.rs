//! Copy-on-write memory: objects addressed by slot id, bytes concrete or symbolic.

use crate::expr::E;
use std::rc::Rc;

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    /// Symbolic overlay: empty when every byte is concrete, else one entry per byte (0 = concrete).
    pub sym: Vec<E>,
    pub ro: bool,
}

impl Obj {
    pub fn new(n: usize) -> Obj {
        Obj { data: vec![0; n], sym: vec![], ro: false }
    }
    pub fn concrete(&self, off: usize, n: usize) -> bool {
        self.sym.is_empty() || self.sym[off..off + n].iter().all(|&e| e == 0)
    }
}

#[derive(Clone)]
struct Leaf {
    s: [Option<Rc<Obj>>; 64],
}
#[derive(Clone)]
struct Mid {
    l: [Option<Rc<Leaf>>; 64],
}

/// Persistent vector of optional objects.
#[derive(Clone, Default)]
pub struct PVec {
    top: Vec<Option<Rc<Mid>>>,
}

const NL: Option<Rc<Leaf>> = None;
const NO: Option<Rc<Obj>> = None;

impl PVec {
    #[inline]
    pub fn get(&self, i: usize) -> Option<&Rc<Obj>> {
        let m = self.top.get(i >> 12)?.as_ref()?;
        let l = m.l[(i >> 6) & 63].as_ref()?;
        l.s[i & 63].as_ref()
    }
    #[inline]
    pub fn slot(&mut self, i: usize) -> &mut Option<Rc<Obj>> {
        let t = i >> 12;
        if t >= self.top.len() {
            self.top.resize(t + 1, None);
        }
        let m = self.top[t].get_or_insert_with(|| Rc::new(Mid { l: [NL; 64] }));
        let m = Rc::make_mut(m);
        let l = m.l[(i >> 6) & 63].get_or_insert_with(|| Rc::new(Leaf { s: [NO; 64] }));
        let l = Rc::make_mut(l);
        &mut l.s[i & 63]
    }
    /// Mutable access to an existing object.
    #[inline]
    pub fn get_mut(&mut self, i: usize) -> Option<&mut Obj> {
        let m = self.top.get_mut(i >> 12)?.as_mut()?;
        let m = Rc::make_mut(m);
        let l = m.l[(i >> 6) & 63].as_mut()?;
        let l = Rc::make_mut(l);
        let o = l.s[i & 63].as_mut()?;
        Some(Rc::make_mut(o))
    }
    /// Drop a leaf's object; used for frees.
    pub fn clear(&mut self, i: usize) {
        *self.slot(i) = None;
    }
}
