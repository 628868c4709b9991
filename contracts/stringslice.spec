package github.com/goccmack/goutil/stringslice

func Find(ss, s) (res)
  ensures forall i int :: {res[i]} 0 <= i < len(res) ==> 0 <= res[i] < len(ss) && ss[res[i]] == s
  ensures forall k int :: {ss[k]} 0 <= k < len(ss) && ss[k] == s ==> exists i int :: {res[i]} 0 <= i < len(res) && res[i] == k
  ensures res == nil || fresh(arr(res))
  loop 1
    invariant indices == nil || fresh(arr(indices))
    invariant forall i int :: {indices[i]} 0 <= i < len(indices) ==> 0 <= indices[i] < $i && ss[indices[i]] == s
    invariant forall k int :: {ss[k]} 0 <= k < $i && ss[k] == s ==> exists i int :: {indices[i]} 0 <= i < len(indices) && indices[i] == k
