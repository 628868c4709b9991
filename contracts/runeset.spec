package github.com/goccmack/gogll/v3/util/runeset

define rsOK(rs *RuneSet) bool = rs != nil && rs.set != nil && (forall r rune :: r in rs.set ==> rs.set[r])

func New() (res)
  ensures fresh(res) && rsOK(res) && (forall r rune :: !(r in res.set))
  ensures fresh(ref(res.set))

func (*RuneSet).Add(rs, r)
  requires rsOK(rs)
  modifies mapof(rs.set)
  ensures rsOK(rs)
  ensures view: dom(rs.set) == add(old(dom(rs.set)), r)

func (*RuneSet).Contains(rs, r) (res)
  requires rsOK(rs)
  ensures res <==> r in rs.set

func (*RuneSet).Empty(rs) (res)
  requires rsOK(rs)
  ensures res <==> (forall r rune :: !(r in rs.set))

func (*RuneSet).Elements(rs) (res)
  requires rsOK(rs)
  ensures complete: forall r rune :: r in rs.set ==> exists i int :: 0 <= i < len(res) && res[i] == r
  ensures sound: forall i int :: 0 <= i < len(res) ==> res[i] in rs.set
  ensures sorted: forall i, j int :: 0 <= i < j < len(res) ==> res[i] <= res[j]
  ensures len(res) == len(rs.set)
  loop 1
    invariant forall r rune :: $seen[r] ==> exists i int :: 0 <= i < len(elements) && elements[i] == r
    invariant forall i int :: 0 <= i < len(elements) ==> $seen[elements[i]]
    invariant len(elements) == card($seen)

func (*RuneSet).Equal(rs, rs1) (res)
  requires rsOK(rs) && rsOK(rs1)
  ensures res <==> (forall r rune :: r in rs.set <==> r in rs1.set)
  loop 1
    invariant forall r rune :: $seen[r] ==> r in rs1.set
    invariant len(rs.set) == len(rs1.set)

func (*RuneSet).Intersection(rs, rs1) (res)
  requires rsOK(rs) && rsOK(rs1)
  ensures fresh(res) && rsOK(res)
  ensures forall r rune :: r in res.set <==> (r in rs.set && r in rs1.set)
  loop 1
    invariant rsOK(intersection) && fresh(intersection) && fresh(ref(intersection.set))
    invariant forall r rune :: r in intersection.set <==> ($seen[r] && r in rs1.set)

func (*RuneSet).Subset(rs, rs1) (res)
  requires rsOK(rs) && rsOK(rs1)
  ensures res <==> (forall r rune :: r in rs.set ==> r in rs1.set)
  loop 1
    invariant forall r rune :: $seen[r] ==> r in rs1.set
