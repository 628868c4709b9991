package github.com/goccmack/gogll/v3/lr1/states

// ---- contexts ----
// the list holds the symbols of the set, each once, in order
opaque inStr(R arr[string], o, n int, t string) bool = exists i int :: {at(R, o, i)} 0 <= i < n && at(R, o, i) == t
lemma inStr1: forall R arr[string], o int, t string :: {inStr(R, o, 1, t)} inStr(R, o, 1, t) <==> at(R, o, 0) == t
  reveal inStr
lemma inStrStep: forall R arr[string], o, n int, t string :: {inStr(R, o, n, t), at(R, o, n)} 0 <= n ==> (inStr(R, o, n + 1, t) <==> inStr(R, o, n, t) || at(R, o, n) == t)
  reveal inStr
lemma inStrNone: forall R arr[string], o int, t string :: {inStr(R, o, 0, t)} !inStr(R, o, 0, t)
  reveal inStr
opaque sizeIs(n int, S set[string]) bool = n == card(S)
define ctxOK(c *ContextSet) bool = c != nil && c.Contain != nil && cap(c.List) > 0 && (forall t string :: {c.Contain[t]} {inStr(row(c.List), off(c.List), len(c.List), t)} c.Contain[t] <==> inStr(row(c.List), off(c.List), len(c.List), t)) && (forall t string :: {t in c.Contain} t in c.Contain ==> c.Contain[t]) && distinctStr(row(c.List), off(c.List), len(c.List)) && sizeIs(len(c.List), dom(c.Contain))
define ctx(c *ContextSet, t string) bool = c.Contain[t]

func NewContextSet() (res)
  reveal sizeIs
  reveal inStr, distinctStr
  ensures ctxOK(res) && fresh(res) && fresh(ref(res.Contain)) && fresh(arr(res.List))
  ensures forall t string :: {res.Contain[t]} !res.Contain[t]

func (*ContextSet).Add(this, symbol) (res)
  reveal sizeIs
  reveal inStr, distinctStr
  requires ctxOK(this)
  requires len(symbol) > 0 ==> arr(symbol) != arr(this.List)
  modifies this.List, mapof(this.Contain), elems(this.List)
  ensures ctxOK(this) && (arr(this.List) == old(arr(this.List)) || fresh(arr(this.List)))
  ensures forall t string :: {this.Contain[t]} this.Contain[t] <==> old(this.Contain[t]) || inStr(row(symbol), off(symbol), len(symbol), t)
  ensures res <==> (exists i int :: {symbol[i]} 0 <= i < len(symbol) && !old(this.Contain[symbol[i]]))
  loop 1
    invariant ctxOK(this) && (arr(this.List) == old(arr(this.List)) || fresh(arr(this.List)))
    invariant forall t string :: {this.Contain[t]} this.Contain[t] <==> old(this.Contain[t]) || inStr(row(symbol), off(symbol), $i, t)
    invariant newContext <==> (exists i int :: {symbol[i]} 0 <= i < $i && !old(this.Contain[symbol[i]]))
    invariant forall i int :: {symbol[i]} 0 <= i < len(symbol) ==> symbol[i] == old(symbol[i])

func (*ContextSet).AddSet(this, that)
  requires ctxOK(this) && ctxOK(that) && arr(that.List) != arr(this.List)
  modifies this.List, mapof(this.Contain), elems(this.List)
  ensures ctxOK(this)
  ensures forall t string :: {this.Contain[t]} this.Contain[t] <==> old(this.Contain[t]) || old(that.Contain[t])

func (*ContextSet).Clone(this) (res)
  reveal sizeIs
  reveal inStr, distinctStr
  requires ctxOK(this)
  exit forall t string :: {t in this.Contain} t in this.Contain <==> this.Contain[t]
  exit forall t string :: {inStr(row(res.List), off(res.List), len(res.List), t)} inStr(row(res.List), off(res.List), len(res.List), t) <==> inStr(row(this.List), off(this.List), len(this.List), t)
  ensures ctxOK(res) && fresh(res) && fresh(ref(res.Contain)) && fresh(arr(res.List))
  ensures forall t string :: {res.Contain[t]} {this.Contain[t]} res.Contain[t] <==> this.Contain[t]
  loop 1
    invariant forall t string :: {clone.Contain[t]} clone.Contain[t] <==> t in $seen
    invariant forall t string :: {t in clone.Contain} t in clone.Contain <==> t in $seen

func (*ContextSet).Diff(this, that) (res)
  reveal inStr
  requires ctxOK(this) && ctxOK(that)
  ensures ctxOK(res) && fresh(res) && fresh(ref(res.Contain)) && fresh(arr(res.List))
  ensures forall t string :: {res.Contain[t]} res.Contain[t] <==> this.Contain[t] && !that.Contain[t]
  loop 1
    invariant ctxOK(diff) && fresh(diff) && fresh(ref(diff.Contain)) && fresh(arr(diff.List))
    invariant forall t string :: {diff.Contain[t]} diff.Contain[t] <==> t in $seen && !that.Contain[t]

func (*ContextSet).Equal(this, that) (res)
  reveal sizeIs
  requires ctxOK(this) && ctxOK(that)
  ensures res <==> (forall t string :: {this.Contain[t]} {that.Contain[t]} this.Contain[t] <==> that.Contain[t])
  loop 1
    invariant forall t string :: {t in $seen} t in $seen ==> that.Contain[t]

func (*ContextSet).Intersection(this, that) (res)
  reveal inStr
  requires ctxOK(this) && ctxOK(that)
  ensures forall t string :: {this.Contain[t]} {that.Contain[t]} {inStr(row(res), off(res), len(res), t)} inStr(row(res), off(res), len(res), t) <==> this.Contain[t] && that.Contain[t]
  ensures len(res) == 0 <==> (forall t string :: {this.Contain[t]} {that.Contain[t]} !(this.Contain[t] && that.Contain[t]))
  loop 1
    invariant forall t string :: {t in $seen} {inStr(row(intersection), off(intersection), len(intersection), t)} inStr(row(intersection), off(intersection), len(intersection), t) <==> t in $seen && that.Contain[t]
    invariant forall i int :: {intersection[i]} 0 <= i < len(intersection) ==> this.Contain[intersection[i]] && that.Contain[intersection[i]]
    invariant len(intersection) == 0 ==> (forall t string :: {t in $seen} t in $seen ==> !that.Contain[t])

func (*ContextSet).Size(this) (res)
  reveal sizeIs
  requires ctxOK(this)
  ensures res == card(dom(this.Contain))

// ---- groups: an item with its context ----
define cgOK(g *ConfigGroup) bool = g != nil && g.Item != nil && g.hashKey == g.Item.hashKey && ctxOK(g.ContextSet)
define gctx(g *ConfigGroup, t string) bool = g.ContextSet.Contain[t]
define ctxApart(c, d *ContextSet) bool = c != d && ref(c.Contain) != ref(d.Contain) && arr(c.List) != arr(d.List)
opaque gIn(R arr[*ConfigGroup], o, n int, g *ConfigGroup) bool = exists i int :: {at(R, o, i)} 0 <= i < n && at(R, o, i) == g
opaque gOnce(R arr[*ConfigGroup], o, n int) bool = forall i, j int :: {at(R, o, i), at(R, o, j)} 0 <= i < j < n ==> at(R, o, i).hashKey != at(R, o, j).hashKey
opaque gAll(R arr[*ConfigGroup], o, n int) bool = forall i int :: {at(R, o, i)} 0 <= i < n ==> cgOK(at(R, o, i))
opaque gApart(R arr[*ConfigGroup], o, n int) bool = forall i, j int :: {at(R, o, i), at(R, o, j)} 0 <= i < j < n ==> ctxApart(at(R, o, i).ContextSet, at(R, o, j).ContextSet)
define listOK(s []*ConfigGroup) bool = gAll(row(s), off(s), len(s)) && gOnce(row(s), off(s), len(s)) && gApart(row(s), off(s), len(s))
define isIn(s *ConfigGroupSet, g *ConfigGroup) bool = gIn(row(s.list), off(s.list), len(s.list), g)
define cgsOK(s *ConfigGroupSet) bool = s != nil && s.contain != nil && cap(s.list) > 0 && listOK(s.list) && sizeIs(len(s.list), dom(s.contain)) && (forall i int :: {s.list[i]} 0 <= i < len(s.list) ==> s.list[i].hashKey in s.contain && s.contain[s.list[i].hashKey] == s.list[i]) && (forall k string :: {k in s.contain} k in s.contain ==> s.contain[k] != nil && s.contain[k].hashKey == k && isIn(s, s.contain[k]))
// the set holds symbol t in the context of the item with key k
framed cgsCtx
opaque cgsCtx(s *ConfigGroupSet, k, t string) bool = k in s.contain && gctx(s.contain[k], t)

func NewConfigGroup(item, context) (res)
  requires item != nil
  ensures cgOK(res) && fresh(res) && fresh(res.ContextSet) && fresh(ref(res.ContextSet.Contain)) && fresh(arr(res.ContextSet.List))
  ensures res.Item == item
  ensures forall t string :: {res.ContextSet.Contain[t]} res.ContextSet.Contain[t] <==> inStr(row(context), off(context), len(context), t)

func (*ConfigGroup).AddContext(this, c) (res)
  requires cgOK(this)
  requires len(c) > 0 ==> arr(c) != arr(this.ContextSet.List)
  modifies this.ContextSet.List, mapof(this.ContextSet.Contain), elems(this.ContextSet.List)
  ensures cgOK(this) && (arr(this.ContextSet.List) == old(arr(this.ContextSet.List)) || fresh(arr(this.ContextSet.List)))
  ensures res == this
  ensures forall t string :: {this.ContextSet.Contain[t]} this.ContextSet.Contain[t] <==> old(this.ContextSet.Contain[t]) || inStr(row(c), off(c), len(c), t)

func (*ConfigGroup).Equal(this, that) (res)
  requires cgOK(this) && cgOK(that)
  ensures res <==> this.hashKey == that.hashKey && (forall t string :: {gctx(this, t)} {gctx(that, t)} gctx(this, t) <==> gctx(that, t))

func (*ConfigGroup).IsNucleus(this) (res)
  requires cgOK(this)
  ensures res <==> this.Item.Position > 0

func NewConfigGroupSet() (res)
  reveal sizeIs
  reveal gIn, gOnce, gAll, gApart
  ensures cgsOK(res) && fresh(res) && fresh(ref(res.contain)) && fresh(arr(res.list))
  ensures len(res.list) == 0 && (forall k string :: {k in res.contain} !(k in res.contain))

func (*ConfigGroupSet).GetGroup(this, cg) (res)
  requires cgsOK(this) && cg != nil
  ensures res == ite(cg.hashKey in this.contain, this.contain[cg.hashKey], nil)

func (*ConfigGroupSet).ContainCore(this, cfgrp) (res)
  requires cgsOK(this) && cfgrp != nil
  ensures res <==> cfgrp.hashKey in this.contain

func (*ConfigGroupSet).Equal(this, that) (res)
  reveal sizeIs
  reveal gAll, gIn
  requires cgsOK(this) && cgsOK(that)
  ensures res <==> (forall k string :: {k in this.contain} {k in that.contain} k in this.contain <==> k in that.contain) && (forall k, t string :: {gctx(this.contain[k], t)} {gctx(that.contain[k], t)} k in this.contain ==> (gctx(this.contain[k], t) <==> gctx(that.contain[k], t)))
  loop 1
    invariant forall k string :: {k in $seen} k in $seen ==> k in that.contain
    invariant forall k, t string :: {gctx(this.contain[k], t)} {gctx(that.contain[k], t)} k in $seen ==> (gctx(this.contain[k], t) <==> gctx(that.contain[k], t))

func (*ConfigGroupSet).CoreEqual(this, that) (res)
  reveal sizeIs
  requires cgsOK(this) && cgsOK(that)
  ensures res <==> (forall k string :: {k in this.contain} {k in that.contain} k in this.contain <==> k in that.contain)
  loop 1
    invariant forall k string :: {k in $seen} k in $seen ==> k in that.contain

// one of n groups has key k and holds t
opaque added(R arr[*ConfigGroup], o, n int, k, t string) bool = exists i int :: {at(R, o, i)} 0 <= i < n && at(R, o, i).hashKey == k && gctx(at(R, o, i), t)
framed added
lemma addedStep: forall R arr[*ConfigGroup], o, n int, k, t string :: {added(R, o, n, k, t), at(R, o, n)} 0 <= n ==> (added(R, o, n + 1, k, t) <==> added(R, o, n, k, t) || at(R, o, n).hashKey == k && gctx(at(R, o, n), t))
  reveal added
lemma addedNone: forall R arr[*ConfigGroup], o int, k, t string :: {added(R, o, 0, k, t)} !added(R, o, 0, k, t)
  reveal added
// no group of the list has the key of another or of one in the set
opaque allNew(s *ConfigGroupSet, R arr[*ConfigGroup], o, n int) bool = gOnce(R, o, n) && (forall i int :: {at(R, o, i)} 0 <= i < n ==> !(at(R, o, i).hashKey in s.contain))
func (*ConfigGroupSet).Add(this, c) (res)
  reveal sizeIs
  reveal gAll, gIn, gOnce, gApart, cgsCtx, allNew
  requires cgsOK(this) && (forall i int :: {c[i]} 0 <= i < len(c) ==> cgOK(c[i])) && gApart(row(c), off(c), len(c))
  requires len(c) > 0 ==> arr(c) != arr(this.list)
  requires forall i int, g *ConfigGroup :: {c[i], isIn(this, g)} 0 <= i < len(c) && isIn(this, g) ==> ctxApart(c[i].ContextSet, g.ContextSet)
  modifies this.list, mapof(this.contain), elems(this.list), anyfield("ContextSet.List"), anyelems("string"), anymap("map[string]bool")
  ensures res == this
  ensures cgsOK(this) && (arr(this.list) == old(arr(this.list)) || fresh(arr(this.list)))
  ensures forall k string :: {k in this.contain} k in this.contain <==> old(k in this.contain) || (exists i int :: {c[i]} 0 <= i < len(c) && c[i].hashKey == k)
  ensures forall k, t string :: {cgsCtx(this, k, t)} cgsCtx(this, k, t) <==> old(cgsCtx(this, k, t)) || old(added(row(c), off(c), len(c), k, t))
  ensures forall k string :: {k in this.contain} old(k in this.contain) ==> this.contain[k] == old(this.contain[k])
  ensures forall k string :: {k in this.contain} k in this.contain && !old(k in this.contain) ==> gIn(old(row(c)), off(c), len(c), this.contain[k])
  ensures noMerge: old(allNew(this, row(c), off(c), len(c))) ==> same(anyfield("ContextSet.List"), anyelems("string"), anymap("map[string]bool"))
  loop 1
    end apart: forall i int :: {this.list[i]} 0 <= i < start(len(this.list)) ==> this.list[i] == start(this.list[i]) && (this.list[i].hashKey == cfgrp.hashKey || ctxApart(cfgrp.ContextSet, this.list[i].ContextSet))
    invariant old(allNew(this, row(c), off(c), len(c))) ==> same(anyfield("ContextSet.List"), anyelems("string"), anymap("map[string]bool"))
    invariant cgsOK(this) && (arr(this.list) == old(arr(this.list)) || fresh(arr(this.list)))
    invariant forall i int :: {c[i]} 0 <= i < len(c) ==> c[i] == old(c[i]) && cgOK(c[i])
    invariant gApart(row(c), off(c), len(c))
    invariant forall i int, g *ConfigGroup :: {c[i], isIn(this, g)} 0 <= i < len(c) && isIn(this, g) ==> ($i > i && c[i] == g) || ctxApart(c[i].ContextSet, g.ContextSet)
    invariant forall i int, t string :: {gctx(c[i], t)} $i <= i < len(c) ==> (gctx(c[i], t) <==> old(gctx(c[i], t)))
    invariant forall k string :: {k in this.contain} k in this.contain <==> old(k in this.contain) || (exists i int :: {c[i]} 0 <= i < $i && c[i].hashKey == k)
    invariant forall k string :: {k in this.contain} old(k in this.contain) ==> this.contain[k] == old(this.contain[k])
    invariant forall k string :: {k in this.contain} k in this.contain && !old(k in this.contain) ==> gIn(old(row(c)), off(c), $i, this.contain[k])
    end others: forall k string :: {k in this.contain} k in this.contain && k != cfgrp.hashKey ==> start(k in this.contain) && this.contain[k] == start(this.contain[k]) && (forall t string :: {gctx(this.contain[k], t)} gctx(this.contain[k], t) <==> start(gctx(this.contain[k], t)))
    end step: forall t string :: {cgsCtx(this, cfgrp.hashKey, t)} cgsCtx(this, cfgrp.hashKey, t) <==> start(cgsCtx(this, c[$i].hashKey, t)) || start(gctx(c[$i], t))
    end steps: forall k, t string :: {cgsCtx(this, k, t)} cgsCtx(this, k, t) <==> start(cgsCtx(this, k, t)) || k == cfgrp.hashKey && start(gctx(c[$i], t))
    invariant forall k, t string :: {cgsCtx(this, k, t)} cgsCtx(this, k, t) <==> old(cgsCtx(this, k, t)) || old(added(row(c), off(c), $i, k, t))

// ---- states ----
define lrOK(s *State) bool = s != nil && cgsOK(s.Nucleus) && cgsOK(s.NonNucleus) && s.Nucleus != s.NonNucleus && arr(s.Nucleus.list) != arr(s.NonNucleus.list) && ref(s.Nucleus.contain) != ref(s.NonNucleus.contain) && (forall k string :: {k in s.Nucleus.contain} {k in s.NonNucleus.contain} !(k in s.Nucleus.contain && k in s.NonNucleus.contain)) && (forall g, h *ConfigGroup :: {isIn(s.Nucleus, g), isIn(s.NonNucleus, h)} isIn(s.Nucleus, g) && isIn(s.NonNucleus, h) ==> ctxApart(g.ContextSet, h.ContextSet))

func (*State).ConfigGroups(this) (res)
  reveal gAll, gIn, gOnce, allNew
  requires lrOK(this)
  modifies anyfield("ContextSet.List"), anyelems("string"), anymap("map[string]bool")
  ensures cgsOK(res) && fresh(res)
  ensures forall k string :: {k in res.contain} k in res.contain <==> k in this.Nucleus.contain || k in this.NonNucleus.contain
  ensures forall k string :: {k in this.Nucleus.contain} k in this.Nucleus.contain ==> res.contain[k] == this.Nucleus.contain[k]
  ensures forall k string :: {k in this.NonNucleus.contain} k in this.NonNucleus.contain ==> res.contain[k] == this.NonNucleus.contain[k]
  ensures same(anyfield("ContextSet.List"), anyelems("string"), anymap("map[string]bool"))
