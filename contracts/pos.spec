package github.com/goccmack/gogll/v3/lex/item/pos

define posOK(p *Pos) bool = p != nil && len(p.stack) > 0
define sameStack(a []int, b []int) bool = len(a) == len(b) && (forall i int :: 0 <= i < len(a) ==> a[i] == b[i])

define runesOf(s []int) string = str_of_runes(row(s), off(s), len(s))

func New() (res)
  ensures fresh(res) && fresh(arr(res.stack)) && len(res.stack) == 1 && res.stack[0] == 0

func (*Pos).Clone(p) (res)
  requires p != nil
  ensures fresh(res) && fresh(arr(res.stack)) && len(res.stack) == len(p.stack)
  ensures forall i int :: 0 <= i < len(p.stack) ==> res.stack[i] == p.stack[i]

func (*Pos).Equal(p, other) (res)
  requires p != nil && other != nil
  ensures res <==> sameStack(p.stack, other.stack)
  ensures res <==> runesOf(p.stack) == runesOf(other.stack)
  loop 1
    invariant forall k int :: 0 <= k < $i ==> p.stack[k] == other.stack[k]

func (*Pos).Inc(p) (res)
  requires posOK(p)
  modifies elems(p.stack)
  ensures res == p
  ensures p.stack[len(p.stack)-1] == old(p.stack[len(p.stack)-1]) + 1
  ensures forall i int :: 0 <= i < len(p.stack) - 1 ==> p.stack[i] == old(p.stack[i])

func (*Pos).Len(p) (res)
  requires p != nil
  ensures res == len(p.stack)

func (*Pos).Peek(p, height) (res)
  requires p != nil && 0 <= height < len(p.stack)
  ensures res == p.stack[height]

func (*Pos).Push(p, v) (res)
  requires p != nil
  modifies p.stack, elems(p.stack)
  ensures res == p && len(p.stack) == len(old(p.stack)) + 1
  ensures p.stack[len(old(p.stack))] == v
  ensures forall i int :: 0 <= i < len(old(p.stack)) ==> p.stack[i] == old(p.stack[i])
  ensures fresh(arr(p.stack)) || arr(p.stack) == arr(old(p.stack))

func (*Pos).Pop(p, n) (res)
  requires p != nil && 0 <= n <= len(p.stack)
  modifies p.stack
  ensures res == p && len(p.stack) == len(old(p.stack)) - n
  ensures arr(p.stack) == arr(old(p.stack)) && off(p.stack) == off(old(p.stack))

func (*Pos).Top(p) (res)
  requires posOK(p)
  ensures res == p.stack[len(p.stack)-1]
