// C09, C24: the pool of readers.
//
// Mutexes: held tells whether the mutex is held by the caller, locks counts
// the critical sections.
ghost held bool
ghost locks int
extern sync.Mutex.Lock(m)
  requires !m.held
  modifies m.held, m.locks
  ensures m.held && m.locks == old(m.locks) + 1
extern sync.Mutex.Unlock(m)
  requires m.held
  modifies m.held
  ensures !m.held
guarded pool.pool.items by mutex
guarded pool.pool.evictList by mutex
zero sync.Mutex :: !self.held

// A list has the elements lseq[0..llen), the last one first; an element is the
// lpos'th of the list lof.
ghost lseq [int]ref
ghost llen int
ghost lof ref
ghost lpos int
pure listOK(l) bool = l != nil && 0 <= l.llen && (forall k :: {l.lseq[k]} 0 <= k && k < l.llen ==> l.lseq[k] != nil && allocated(l.lseq[k]) && (let e = l.lseq[k] :: e.lof == ref(l) && e.lpos == k)) && (forall e ref :: {e.lof} e.lof == ref(l) ==> 0 <= e.lpos && e.lpos < l.llen && l.lseq[e.lpos] == e)

extern container/list.New() (l)
  ensures l != nil && fresh(l) && l.llen == 0 && listOK(l)
extern container/list.List.Len(l) (n)
  requires listOK(l)
  ensures n == l.llen
extern container/list.List.Back(l) (e)
  requires listOK(l)
  ensures (e == nil) == (l.llen == 0) && (e != nil ==> ref(e) == l.lseq[0])
extern container/list.List.Front(l) (e)
  requires listOK(l)
  ensures (e == nil) == (l.llen == 0) && (e != nil ==> ref(e) == l.lseq[l.llen - 1])
extern container/list.Element.Prev(e) (n)
  requires e != nil && (let l = e.lof :: listOK(l))
  ensures let l = e.lof :: (n == nil) == (e.lpos + 1 >= l.llen) && (n != nil ==> ref(n) == l.lseq[e.lpos + 1])
extern container/list.Element.Next(e) (n)
  requires e != nil && (let l = e.lof :: listOK(l))
  ensures let l = e.lof :: (n == nil) == (e.lpos == 0) && (n != nil ==> ref(n) == l.lseq[e.lpos - 1])
extern container/list.List.PushFront(l, v) (e)
  requires listOK(l)
  modifies l.lseq, l.llen
  ensures e != nil && fresh(e) && e.Value == v && e.lof == ref(l) && e.lpos == old(l.llen) && l.llen == old(l.llen) + 1 && l.lseq == store(old(l.lseq), old(l.llen), ref(e)) && listOK(l)
extern container/list.List.Remove(l, e) (v)
  requires listOK(l) && e != nil
  modifies l.lseq, l.llen, all(lof), all(lpos)
  ensures v == e.Value
  ensures old(e.lof) != ref(l) ==> l.lseq == old(l.lseq) && l.llen == old(l.llen)
  ensures old(e.lof) == ref(l) ==> e.lof == nil && l.llen == old(l.llen) - 1 && (forall k :: {l.lseq[k]} l.lseq[k] == (k < old(e.lpos) ? old(l.lseq)[k] : old(l.lseq)[k + 1]))
  ensures forall x ref :: {x.lof} x != ref(e) || old(e.lof) != ref(l) ==> x.lof == old(x.lof)
  ensures forall x ref :: {x.lpos} x.lpos == old(x.lpos) - (old(e.lof) == ref(l) && old(x.lof) == ref(l) && old(x.lpos) > old(e.lpos) ? 1 : 0)
  ensures listOK(l)

// The pool holds one reader per key; the eviction list has the elements of
// the map, the one put last at the end.
pure ent(e) ref = dyn(e.Value, "*pool.entry")
pure poolOK(p) bool = p != nil && p.items != nil && listOK(p.evictList) && p.evictList.llen == len(p.items) && 1 <= p.size && p.size <= 0x100000 && len(p.items) <= p.size
  && (forall k :: {p.evictList.lseq[k]} 0 <= k && k < p.evictList.llen ==> (let e = ptr(p.evictList.lseq[k], "container/list.Element") :: is(e.Value, "*pool.entry") && dyn(e.Value, "*pool.entry") != nil && dyn(e.Value, "*pool.entry").value != nil && has(p.items, dyn(e.Value, "*pool.entry").key) && p.items[dyn(e.Value, "*pool.entry").key] == e))
  && (forall k i64 :: {has(p.items, k)} {p.items[k]} has(p.items, k) ==> (let e = p.items[k] :: e != nil && e.lof == ref(p.evictList) && dyn(e.Value, "*pool.entry").key == k))
pure val(e) iface = dyn(e.Value, "*pool.entry").value
pure keyOf(e) i64 = dyn(e.Value, "*pool.entry").key
// the greatest key that is not above an offset
pure best(p, k i64, offset i64) bool = has(p.items, k) && k <= offset && forall j i64 :: {has(p.items, j)} has(p.items, j) && j <= offset ==> j <= k
pure nth(p, k int) ref = p.evictList.lseq[k]

func pool.pool.keys(p) (keys)
  props C09, C24, C04
  guard
  requires poolOK(p) && p.mutex.held
  loop 1
    invariant [at] 0 <= i && i <= p.evictList.llen && (ent == nil) == (i == p.evictList.llen) && (ent != nil ==> ref(ent) == p.evictList.lseq[i]) && len(keys) == len(p.items) && fresh(arr(keys))
    invariant [keys] forall k :: {keys[k]} 0 <= k && k < i ==> keys[k] == dyn(ptr(p.evictList.lseq[k], "container/list.Element").Value, "*pool.entry").key
  ensures [len] len(keys) == len(p.items) && fresh(arr(keys))
  ensures [has] forall k :: {keys[k]} 0 <= k && k < len(keys) ==> has(p.items, keys[k])
  ensures [keys] forall k :: {keys[k]} {p.evictList.lseq[k]} 0 <= k && k < len(keys) ==> keys[k] == dyn(ptr(p.evictList.lseq[k], "container/list.Element").Value, "*pool.entry").key

func pool.pool.removeElement(p, e, cb) (err)
  props C09, C24, C04
  guard
  requires poolOK(p) && p.mutex.held && e != nil && e.lof == ref(p.evictList)
  modifies p.evictList.lseq, p.evictList.llen, all(lof), all(lpos), elems(p.items), all(closes)
  ensures [ok] poolOK(p)
  ensures [gone] !has(p.items, old(keyOf(e)))
  ensures [others] forall k i64 :: {has(p.items, k)} {p.items[k]} k != old(keyOf(e)) ==> has(p.items, k) == old(has(p.items, k)) && p.items[k] == old(p.items[k])
  ensures [len] len(p.items) == old(len(p.items)) - 1
  ensures [order] forall k :: {p.evictList.lseq[k]} p.evictList.lseq[k] == (k < old(e.lpos) ? old(p.evictList.lseq)[k] : old(p.evictList.lseq)[k + 1])
  ensures [close] cb ==> (let v = old(val(e)) :: v.closes == old(v.closes) + 1 && (err != nil) == v.clfail && forall x ref :: {x.closes} x != ref(v) ==> x.closes == old(x.closes))
  ensures [keep] !cb ==> err == nil && forall x ref :: {x.closes} x.closes == old(x.closes)

func pool.pool.removeOldest(p) (err)
  props C09, C24, C04
  guard
  requires poolOK(p) && p.mutex.held && 0 < p.evictList.llen
  modifies p.evictList.lseq, p.evictList.llen, all(lof), all(lpos), elems(p.items), all(closes)
  ensures [ok] poolOK(p)
  ensures [gone] !has(p.items, old(keyOf(ptr(nth(p, 0), "container/list.Element"))))
  ensures [others] forall k i64 :: {has(p.items, k)} {p.items[k]} k != old(keyOf(ptr(nth(p, 0), "container/list.Element"))) ==> has(p.items, k) == old(has(p.items, k)) && p.items[k] == old(p.items[k])
  ensures [len] len(p.items) == old(len(p.items)) - 1
  ensures [order] forall k :: {p.evictList.lseq[k]} 0 <= k ==> p.evictList.lseq[k] == old(p.evictList.lseq)[k + 1]
  ensures [close] let v = old(val(ptr(nth(p, 0), "container/list.Element"))) :: v.closes == old(v.closes) + 1 && (err != nil) == v.clfail
  ensures [keep] let v = old(val(ptr(nth(p, 0), "container/list.Element"))) :: forall x ref :: {x.closes} x != ref(v) ==> x.closes == old(x.closes)

func pool.pool.Get(p, offset) (rc, ok)
  props C09, C24, C04
  guard
  requires poolOK(p) && !p.mutex.held
  modifies p.mutex.held, p.mutex.locks, p.evictList.lseq, p.evictList.llen, all(lof), all(lpos), elems(p.items), all(closes)
  loop 1
    invariant [above] forall j :: {keys[j]} 0 <= j && j < $i ==> keys[j] >= offset
    invariant [has] forall j :: {keys[j]} 0 <= j && j < len(keys) ==> has(p.items, keys[j])
  ensures [ok] poolOK(p)
  ensures [atomic] !p.mutex.held && p.mutex.locks == old(p.mutex.locks) + 1
  ensures [exact] old(has(p.items, offset)) ==> ok && rc == old(val(p.items[offset]))
  ensures [none] !ok ==> rc == nil && (forall k i64 :: {has(p.items, k)} has(p.items, k) == old(has(p.items, k)) && p.items[k] == old(p.items[k]) && (has(p.items, k) ==> k > offset))
  ensures [found] ok ==> rc != nil && exists k i64 :: {old(has(p.items, k))} old(has(p.items, k)) && k <= offset && rc == old(val(p.items[k])) && !has(p.items, k)
  ensures [closest] forall k i64 :: {old(has(p.items, k))} old(best(p, k, offset)) ==> ok && rc == old(val(p.items[k])) && !has(p.items, k)
  ensures [others] forall k i64 :: {has(p.items, k)} (has(p.items, k) ==> old(has(p.items, k)) && p.items[k] == old(p.items[k])) && (old(has(p.items, k)) && !old(best(p, k, offset)) ==> has(p.items, k))
  ensures [open] forall x ref :: {x.closes} x.closes == old(x.closes)
  ensures [taken] ok ==> len(p.items) == old(len(p.items)) - 1
  ensures [order] forall x ref, y ref :: {x.lpos, y.lpos} x.lof == ref(p.evictList) && y.lof == ref(p.evictList) && x != y ==> (x.lpos < y.lpos) == (old(x.lpos) < old(y.lpos))

func pool.pool.Put(p, offset, rc) (evicted, err)
  props C09, C24, C04
  guard
  requires poolOK(p) && !p.mutex.held && rc != nil && (forall k :: {nth(p, k)} 0 <= k && k < p.evictList.llen ==> ref(val(ptr(nth(p, k), "container/list.Element"))) != ref(rc))
  modifies p.mutex.held, p.mutex.locks, p.evictList.lseq, p.evictList.llen, all(lof), all(lpos), elems(p.items), all(closes)
  ensures [ok] poolOK(p)
  ensures [atomic] !p.mutex.held && p.mutex.locks == old(p.mutex.locks) + 1
  ensures [dup] old(has(p.items, offset)) ==> rc.closes == old(rc.closes) + 1 && (err != nil) == rc.clfail && (forall k i64 :: {has(p.items, k)} has(p.items, k) == old(has(p.items, k)) && p.items[k] == old(p.items[k]))
  ensures [added] !old(has(p.items, offset)) ==> has(p.items, offset) && val(p.items[offset]) == rc && keyOf(p.items[offset]) == offset && rc.closes == old(rc.closes) && ref(p.items[offset]) == nth(p, p.evictList.llen - 1)
  ensures [room] !old(has(p.items, offset)) && old(len(p.items)) < p.size ==> err == nil && len(p.items) == old(len(p.items)) + 1 && (forall k i64 :: {has(p.items, k)} k != offset ==> has(p.items, k) == old(has(p.items, k)) && p.items[k] == old(p.items[k]))
  ensures [evict] !old(has(p.items, offset)) && old(len(p.items)) == p.size ==> (let v = old(val(ptr(nth(p, 0), "container/list.Element"))) :: v.closes == old(v.closes) + 1 && (err != nil) == v.clfail) && (let o = old(keyOf(ptr(nth(p, 0), "container/list.Element"))) :: !has(p.items, o) && (forall k i64 :: {has(p.items, k)} k != offset && k != o ==> has(p.items, k) == old(has(p.items, k)) && p.items[k] == old(p.items[k])))

func pool.NewPool() (r, err)
  props C09, C24, C04
  ensures [new] err == nil && is(r, "*pool.pool") && (let p = dyn(r, "*pool.pool") :: poolOK(p) && len(p.items) == 0 && !p.mutex.held && fresh(p))
extern runtime.NumCPU() (n)
  ensures 1 <= n && n <= 0x100000
func pool.NewNoopPool() (r, err)
  props C09, C24, C04
  ensures [new] err == nil && is(r, "*pool.noopPool")
func pool.noopPool.Get(p, o) (rc, ok)
  props C09, C24, C04
  ensures [none] !ok && rc == nil
func pool.noopPool.Put(p, o, rc) (ev, err)
  props C09, C24, C04
  requires rc != nil
  modifies rc.closes
  ensures [close] rc.closes == old(rc.closes) + 1 && (err != nil) == rc.clfail
