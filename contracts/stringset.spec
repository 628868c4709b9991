package github.com/goccmack/goutil/stringset

define ssOK(ss *StringSet) bool = ss != nil && ss.set != nil
// no string occurs twice in R[o:o+n]
opaque distinctStr(R arr[string], o, n int) bool = forall i, j int :: {at(R, o, i), at(R, o, j)} 0 <= i < j < n ==> at(R, o, i) != at(R, o, j)
define has(ss *StringSet, s string) bool = s in ss.set

func New(elements) (res)
  ensures fresh(res) && fresh(ref(res.set))
  ensures forall s string :: {s in res.set} s in res.set <==> (exists i int :: {elements[i]} 0 <= i < len(elements) && elements[i] == s)

func (*StringSet).Add(ss, elements) (res)
  requires ssOK(ss)
  modifies mapof(ss.set)
  ensures res == ss
  ensures forall s string :: {s in ss.set} s in ss.set <==> (s in old(dom(ss.set)) || (exists i int :: {elements[i]} 0 <= i < len(elements) && elements[i] == s))
  loop 1
    invariant forall s string :: {s in ss.set} s in ss.set <==> (s in old(dom(ss.set)) || (exists i int :: {elements[i]} 0 <= i < $i && elements[i] == s))

func (*StringSet).AddSet(ss, ss1) (res)
  requires ssOK(ss) && ss1 != nil
  modifies mapof(ss.set)
  ensures res == ss
  ensures forall s string :: {s in ss.set} s in ss.set <==> (s in old(dom(ss.set)) || s in old(dom(ss1.set)))

func (*StringSet).Clone(ss) (res)
  requires ss != nil
  ensures fresh(res) && fresh(ref(res.set))
  ensures forall s string :: {s in res.set} s in res.set <==> s in ss.set

func (*StringSet).Contain(ss, s) (res)
  requires ss != nil
  ensures res <==> s in ss.set

func (*StringSet).Elements(ss) (res)
  reveal distinctStr
  requires ss != nil
  ensures fresh(arr(res)) && len(res) == len(ss.set)
  ensures sound: forall i int :: {res[i]} 0 <= i < len(res) ==> res[i] in ss.set
  ensures complete: forall s string :: {s in ss.set} s in ss.set ==> exists i int :: {res[i]} 0 <= i < len(res) && res[i] == s
  ensures distinct: distinctStr(row(res), off(res), len(res))
  loop 1
    invariant forall s string :: $seen[s] ==> exists i int :: {sl[i]} 0 <= i < len(sl) && sl[i] == s
    invariant forall i int :: {sl[i]} 0 <= i < len(sl) ==> $seen[sl[i]]
    invariant forall i, j int :: {sl[i], sl[j]} 0 <= i < j < len(sl) ==> sl[i] != sl[j]
    invariant len(sl) == card($seen)
    invariant fresh(arr(sl))

func (*StringSet).ElementsSorted(ss) (res)
  reveal distinctStr
  requires ss != nil
  ensures fresh(arr(res)) && len(res) == len(ss.set)
  ensures sound: forall i int :: {res[i]} 0 <= i < len(res) ==> res[i] in ss.set
  ensures complete: forall s string :: {s in ss.set} s in ss.set ==> exists i int :: {res[i]} 0 <= i < len(res) && res[i] == s
  ensures distinct: distinctStr(row(res), off(res), len(res))
  ensures sorted: forall i, j int :: {res[i], res[j]} 0 <= i < j < len(res) ==> res[i] < res[j]

func (*StringSet).Equal(ss, ss1) (res)
  requires ss != nil && ss1 != nil
  ensures res <==> (forall s string :: {s in ss.set} {s in ss1.set} s in ss.set <==> s in ss1.set)
  loop 1
    invariant forall s string :: $seen[s] ==> s in ss1.set

func (*StringSet).Len(ss) (res)
  requires ss != nil
  ensures res == len(ss.set)

func (*StringSet).Remove(ss, element) (res)
  requires ss != nil
  modifies mapof(ss.set)
  ensures res == ss
  ensures dom(ss.set) == remove(old(dom(ss.set)), element)
