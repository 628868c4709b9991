package github.com/goccmack/gogll/v3/lr1/pgm

// no symbol is in both contexts
define disj(g, h *states.ConfigGroup) bool = forall t string :: {g.ContextSet.Contain[t]} {h.ContextSet.Contain[t]} !(g.ContextSet.Contain[t] && h.ContextSet.Contain[t])
define sameCore(a, b *states.ConfigGroupSet) bool = forall k string :: {k in a.contain} {k in b.contain} k in a.contain <==> k in b.contain
// Pager's weak compatibility of two different items of the core
define weakIJ(a, b *states.ConfigGroupSet, i, j string) bool = disj(a.contain[i], b.contain[j]) && disj(b.contain[i], a.contain[j]) || !disj(a.contain[i], a.contain[j]) || !disj(b.contain[i], b.contain[j])
define weak(a, b *states.ConfigGroupSet) bool = sameCore(a, b) && (forall i, j string :: {i in a.contain, j in a.contain} i in a.contain && j in a.contain && i != j ==> weakIJ(a, b, i, j))

func contextsDisjunct(this, that) (res)
  requires cgOK(this) && cgOK(that)
  ensures res <==> disj(this, that)

func weaklyCompatibleCfgGrpSet(this, that) (res)
  reveal gAll, gIn, gOnce
  requires cgsOK(this) && cgsOK(that)
  ensures res <==> weak(this, that)
  loop 1
    invariant forall i, j int :: {this.list[i], this.list[j]} 0 <= i < $i && i < j < len(this.list) ==> weakIJ(this, that, this.list[i].hashKey, this.list[j].hashKey)
  loop 2
    invariant forall j int :: {this.list[j]} $i_1 < j < $i_1 + 1 + $i ==> weakIJ(this, that, thisI.hashKey, this.list[j].hashKey)

func weaklyCompatibleStates(this, that) (res)
  requires this != nil && that != nil && cgsOK(this.Nucleus) && cgsOK(that.Nucleus)
  ensures res <==> weak(this.Nucleus, that.Nucleus)
