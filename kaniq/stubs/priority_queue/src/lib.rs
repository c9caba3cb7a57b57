//! DoublePriorityQueue as its contract states it, over at most N entries: an unordered list of
//! distinct items, of which the first with the least (greatest) priority is given out. Entries in
//! arbitrary order therefore cover every choice between equal priorities.
pub const N: usize = if cfg!(feature = "large") { 4 } else { 3 };

#[derive(Debug, Clone)]
pub struct DoublePriorityQueue<I, P> {
    e: [Option<(I, P)>; N],
    capacity: usize,
}
impl<I, P> Default for DoublePriorityQueue<I, P> {
    fn default() -> Self {
        Self { e: core::array::from_fn(|_| None), capacity: 0 }
    }
}
impl<I: PartialEq, P: Ord> DoublePriorityQueue<I, P> {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn with_capacity(capacity: usize) -> Self {
        Self { e: core::array::from_fn(|_| None), capacity }
    }
    pub fn capacity(&self) -> usize {
        self.capacity
    }
    pub fn len(&self) -> usize {
        let (mut i, mut n) = (0, 0);
        while i < N {
            n += self.e[i].is_some() as usize;
            i += 1;
        }
        n
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn verif_put(&mut self, i: usize, k: I, p: P) {
        self.e[i] = Some((k, p));
    }
    pub fn verif_at(&self, i: usize) -> Option<&(I, P)> {
        self.e[i].as_ref()
    }
    fn best(&self, min: bool) -> Option<usize> {
        let mut b: Option<usize> = None;
        let mut i = 0;
        while i < N {
            if let Some((_, p)) = &self.e[i] {
                b = match b {
                    None => Some(i),
                    Some(j) => {
                        let q = &self.e[j].as_ref().unwrap().1;
                        if (min && p < q) || (!min && p > q) { Some(i) } else { Some(j) }
                    }
                };
            }
            i += 1;
        }
        b
    }
    fn pos(&self, k: &I) -> Option<usize> {
        let mut i = 0;
        while i < N {
            if let Some((k2, _)) = &self.e[i] {
                if k2 == k {
                    return Some(i);
                }
            }
            i += 1;
        }
        None
    }
    pub fn peek_min(&self) -> Option<(&I, &P)> {
        let i = self.best(true)?;
        self.e[i].as_ref().map(|(k, p)| (k, p))
    }
    pub fn peek_max(&self) -> Option<(&I, &P)> {
        let i = self.best(false)?;
        self.e[i].as_ref().map(|(k, p)| (k, p))
    }
    pub fn pop_min(&mut self) -> Option<(I, P)> {
        let i = self.best(true)?;
        self.e[i].take()
    }
    pub fn pop_max(&mut self) -> Option<(I, P)> {
        let i = self.best(false)?;
        self.e[i].take()
    }
    pub fn push(&mut self, k: I, p: P) -> Option<P> {
        if let Some(i) = self.pos(&k) {
            return self.e[i].replace((k, p)).map(|(_, p)| p);
        }
        let mut i = 0;
        while i < N {
            if self.e[i].is_none() {
                self.e[i] = Some((k, p));
                return None;
            }
            i += 1;
        }
        panic!("the stand-in container is too small")
    }
    pub fn contains(&self, k: &I) -> bool {
        self.pos(k).is_some()
    }
    pub fn get(&self, k: &I) -> Option<(&I, &P)> {
        let i = self.pos(k)?;
        self.e[i].as_ref().map(|(k, p)| (k, p))
    }
    pub fn get_priority(&self, k: &I) -> Option<&P> {
        self.get(k).map(|(_, p)| p)
    }
    pub fn remove(&mut self, k: &I) -> Option<(I, P)> {
        let i = self.pos(k)?;
        self.e[i].take()
    }
    pub fn clear(&mut self) {
        self.e = core::array::from_fn(|_| None);
    }
    pub fn iter(&self) -> impl Iterator<Item = (&I, &P)> {
        self.e.iter().flatten().map(|(k, p)| (k, p))
    }
    pub fn into_sorted_iter(self) -> IntoSortedIter<I, P> {
        IntoSortedIter(self)
    }
    pub fn into_ascending_sorted_vec(mut self) -> Vec<I> {
        let mut v = Vec::new();
        while let Some((k, _)) = self.pop_min() {
            v.push(k);
        }
        v
    }
}
pub struct IntoSortedIter<I, P>(DoublePriorityQueue<I, P>);
impl<I: PartialEq, P: Ord> Iterator for IntoSortedIter<I, P> {
    type Item = (I, P);
    fn next(&mut self) -> Option<(I, P)> {
        self.0.pop_min()
    }
}
