//! FxHashMap and FxHashSet as their contracts state them, over at most N entries.
//! `verif_*` reach arbitrary states.
pub const N: usize = if cfg!(feature = "large") { 7 } else { 6 };

#[derive(Debug, Clone)]
pub struct FxHashMap<K, V> {
    e: [Option<(K, V)>; N],
}
impl<K, V> Default for FxHashMap<K, V> {
    fn default() -> Self {
        Self { e: core::array::from_fn(|_| None) }
    }
}
pub enum Never {}
impl<K: PartialEq, V> FxHashMap<K, V> {
    pub fn verif_put(&mut self, i: usize, k: K, v: V) {
        self.e[i] = Some((k, v));
    }
    fn pos(&self, k: &K) -> Option<usize> {
        let mut i = 0;
        while i < N {
            if let Some((k2, _)) = &self.e[i] {
                if k2 == k {
                    return Some(i);
                }
            }
            i += 1;
        }
        None
    }
    fn free(&self) -> usize {
        let mut i = 0;
        while i < N {
            if self.e[i].is_none() {
                return i;
            }
            i += 1;
        }
        panic!("the stand-in container is too small")
    }
    pub fn len(&self) -> usize {
        self.e.iter().filter(|x| x.is_some()).count()
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn get(&self, k: &K) -> Option<&V> {
        let i = self.pos(k)?;
        self.e[i].as_ref().map(|(_, v)| v)
    }
    pub fn contains_key(&self, k: &K) -> bool {
        self.pos(k).is_some()
    }
    pub fn remove(&mut self, k: &K) -> Option<V> {
        let i = self.pos(k)?;
        self.e[i].take().map(|(_, v)| v)
    }
    pub fn insert(&mut self, k: K, v: V) -> Option<V> {
        match self.pos(&k) {
            Some(i) => self.e[i].replace((k, v)).map(|(_, v)| v),
            None => {
                let i = self.free();
                self.e[i] = Some((k, v));
                None
            }
        }
    }
    pub fn entry(&mut self, k: K) -> Entry<'_, K, V> {
        Entry { m: self, k }
    }
}
pub struct Entry<'a, K, V> {
    m: &'a mut FxHashMap<K, V>,
    k: K,
}
impl<'a, K: PartialEq, V> Entry<'a, K, V> {
    pub fn or_insert(self, v: V) -> &'a mut V {
        let i = match self.m.pos(&self.k) {
            Some(i) => i,
            None => {
                let i = self.m.free();
                self.m.e[i] = Some((self.k, v));
                i
            }
        };
        &mut self.m.e[i].as_mut().unwrap().1
    }
}

#[derive(Debug, Clone)]
pub struct FxHashSet<K> {
    e: [Option<K>; N],
}
impl<K> Default for FxHashSet<K> {
    fn default() -> Self {
        Self { e: core::array::from_fn(|_| None) }
    }
}
impl<K: PartialEq> FxHashSet<K> {
    pub fn verif_put(&mut self, i: usize, k: K) {
        self.e[i] = Some(k);
    }
    pub fn contains(&self, k: &K) -> bool {
        let mut i = 0;
        while i < N {
            if let Some(k2) = &self.e[i] {
                if k2 == k {
                    return true;
                }
            }
            i += 1;
        }
        false
    }
    pub fn insert(&mut self, k: K) -> bool {
        if self.contains(&k) {
            return false;
        }
        let mut i = 0;
        while i < N {
            if self.e[i].is_none() {
                self.e[i] = Some(k);
                return true;
            }
            i += 1;
        }
        panic!("the stand-in container is too small")
    }
    pub fn remove(&mut self, k: &K) -> bool {
        let mut i = 0;
        while i < N {
            if let Some(k2) = &self.e[i] {
                if k2 == k {
                    self.e[i] = None;
                    return true;
                }
            }
            i += 1;
        }
        false
    }
    pub fn len(&self) -> usize {
        let (mut i, mut n) = (0, 0);
        while i < N {
            n += self.e[i].is_some() as usize;
            i += 1;
        }
        n
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
}
