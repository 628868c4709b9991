package github.com/goccmack/gogll/v3/lr1/action

define isAct(a Action) bool = a != nil && (typeis(a, Accept) || typeis(a, Error) || typeis(a, Reduce) || typeis(a, Shift))
// accepting is the reduction of rule 0
define isRed(a Action, r int) bool = ite(r == 0, typeis(a, Accept), typeis(a, Reduce) && as(a, Reduce) == r)
define isShift(a Action, n int) bool = typeis(a, Shift) && as(a, Shift) == n
// the group reduces its rule when the next symbol is s
define reduces(g *states.ConfigGroup, s string) bool = g.Item.Position >= len(g.Item.Symbols) && g.ContextSet.Contain[s]
define rule(g *states.ConfigGroup) int = g.Item.BasicProdIdx

func (Accept).Equal(act) (res)
  ensures res <==> typeis(act, Accept)
func (Error).Equal(act) (res)
  ensures res <==> typeis(act, Error)
func (Reduce).Equal(this, act) (res)
  ensures res <==> typeis(act, Reduce) && as(act, Reduce) == this
func (Shift).Equal(this, act) (res)
  ensures res <==> typeis(act, Shift) && as(act, Shift) == this

func configGroupAction(cfgrp, nextSym) (action)
  requires cgOK(cfgrp)
  ensures action == nil <==> !reduces(cfgrp, nextSym)
  ensures reduces(cfgrp, nextSym) ==> isRed(action, rule(cfgrp))

// the group with key k of the state reduces on s
define grp(st *states.State, k string) *states.ConfigGroup = ite(k in st.Nucleus.contain, st.Nucleus.contain[k], st.NonNucleus.contain[k])
define hasKey(st *states.State, k string) bool = k in st.Nucleus.contain || k in st.NonNucleus.contain
opaque redAt(st *states.State, k, s string, r int) bool = hasKey(st, k) && reduces(grp(st, k), s) && rule(grp(st, k)) == r
framed redAt
define shifts(st *states.State, s string) bool = s in st.Transitions.transitions && st.Transitions.transitions[s] != nil
define rulesFrom0(st *states.State) bool = forall k string :: {k in st.Nucleus.contain} {k in st.NonNucleus.contain} hasKey(st, k) ==> rule(grp(st, k)) >= 0

func (*Conflict).AddConflict(this, sym, act1, act2) (res)
  requires act1 != nil && act2 != nil
  requires this != nil ==> (forall i int :: {this.Actions[i]} 0 <= i < len(this.Actions) ==> isAct(this.Actions[i]))
  requires isAct(act1) && isAct(act2)
  modifies this.Actions, elems(this.Actions)
  ensures res != nil && (this != nil ==> res == this)
  ensures this == nil ==> fresh(res) && fresh(arr(res.Actions))
  ensures this != nil ==> arr(res.Actions) == old(arr(this.Actions)) || fresh(arr(res.Actions))
  ensures forall i int :: {res.Actions[i]} 0 <= i < len(res.Actions) ==> isAct(res.Actions[i])

// the action of the state on s: shift first, then the reduction of the first rule
opaque actionIs(st *states.State, s string, a Action) bool = ite(shifts(st, s), isShift(a, st.Transitions.transitions[s].Number), ite(a == nil, forall k string, r int :: {redAt(st, k, s, r)} !redAt(st, k, s, r), exists k string, r int :: {redAt(st, k, s, r)} redAt(st, k, s, r) && isRed(a, r) && (forall l string, q int :: {redAt(st, l, s, q)} redAt(st, l, s, q) ==> r <= q)))
// two different actions are possible on s
opaque conflictOn(st *states.State, s string) bool = exists k string, r int :: {redAt(st, k, s, r)} redAt(st, k, s, r) && (shifts(st, s) || (exists l string, q int :: {redAt(st, l, s, q)} redAt(st, l, s, q) && q != r))
framed actionIs conflictOn

define stOK(st *states.State, s string) bool = lrOK(st) && st.Transitions != nil && rulesFrom0(st) && (shifts(st, s) ==> (forall k string :: {redAt(st, k, s, 0)} !redAt(st, k, s, 0)))
func stateAction(state, nextSym) (action, conflict)
  reveal redAt, gIn, gAll, actionIs, conflictOn
  requires stOK(state, nextSym)
  modifies anyfield("Conflict.Actions"), anyelems("Action"), anyfield("states.ContextSet.List"), anyelems("string"), anymap("map[string]bool")
  ensures same(anyfield("states.ContextSet.List"), anyelems("string"), anymap("map[string]bool"))
  ensures actionIs(state, nextSym, action)
  ensures conflict != nil <==> conflictOn(state, nextSym)
  loop 1
    invariant forall i int :: {$coll[i]} 0 <= i < len($coll) ==> cgOK($coll[i]) && rule($coll[i]) >= 0 && hasKey(state, $coll[i].hashKey) && grp(state, $coll[i].hashKey) == $coll[i]
    invariant forall i int :: {$coll[i]} 0 <= i < len($coll) && reduces($coll[i], nextSym) ==> redAt(state, $coll[i].hashKey, nextSym, rule($coll[i]))
    invariant forall k string, r int :: {redAt(state, k, nextSym, r)} redAt(state, k, nextSym, r) ==> gIn(row($coll), off($coll), len($coll), grp(state, k))
    invariant action != nil ==> isAct(action)
    invariant shifts(state, nextSym) ==> action != nil && isShift(action, state.Transitions.transitions[nextSym].Number)
    invariant !shifts(state, nextSym) && action != nil ==> (exists i int :: {$coll[i]} 0 <= i < $i && reduces($coll[i], nextSym) && isRed(action, rule($coll[i])) && (forall j int :: {$coll[j]} 0 <= j < $i && reduces($coll[j], nextSym) ==> rule($coll[i]) <= rule($coll[j])))
    invariant action == nil ==> (forall j int :: {$coll[j]} 0 <= j < $i ==> !reduces($coll[j], nextSym))
    invariant conflict != nil <==> (exists i int :: {$coll[i]} 0 <= i < $i && reduces($coll[i], nextSym) && (shifts(state, nextSym) || (exists j int :: {$coll[j]} 0 <= j < $i && reduces($coll[j], nextSym) && rule($coll[j]) != rule($coll[i]))))
    invariant conflict != nil ==> fresh(conflict) && fresh(arr(conflict.Actions)) && (forall i int :: {conflict.Actions[i]} 0 <= i < len(conflict.Actions) ==> isAct(conflict.Actions[i]))

define terms() []string = symbols.tToLiteral
// some terminal among the first n has a conflict in the state
opaque conflictIn(st *states.State, R arr[string], o, n int) bool = exists i int :: {at(R, o, i)} 0 <= i < n && conflictOn(st, at(R, o, i))
framed conflictIn
lemma conflictStep: forall st *states.State, R arr[string], o, n int :: {conflictIn(st, R, o, n), at(R, o, n)} 0 <= n ==> (conflictIn(st, R, o, n + 1) <==> conflictIn(st, R, o, n) || conflictOn(st, at(R, o, n)))
  reveal conflictIn
lemma conflictNone: forall st *states.State, R arr[string], o int :: {conflictIn(st, R, o, 0)} !conflictIn(st, R, o, 0)
  reveal conflictIn
func GetActions(states) (actions, conflicts)
  reveal distinctStr
  requires states != nil && (forall s, i int :: {states.List[s], symbols.tToLiteral[i]} 0 <= s < len(states.List) && 0 <= i < len(symbols.tToLiteral) ==> stOK(states.List[s], symbols.tToLiteral[i]))
  requires distinctStr(row(terms()), off(terms()), len(terms()))
  modifies anyfield("Conflict.Actions"), anyelems("Action"), anyfield("states.ContextSet.List"), anyelems("string"), anymap("map[string]bool"), anymap("map[string]Action"), anyelems("*Conflict"), anyelems("[]*Conflict")
  ensures len(actions) == len(states.List) && len(conflicts) == len(states.List)
  ensures forall s, i int :: {conflicts[s][i]} 0 <= s < len(conflicts) && 0 <= i < len(conflicts[s]) ==> conflicts[s][i] != nil
  ensures forall s, i int :: {actions[s][terms()[i]]} 0 <= s < len(actions) && 0 <= i < len(terms()) ==> actionIs(states.List[s], terms()[i], actions[s][terms()[i]])
  ensures forall s int :: {conflicts[s]} 0 <= s < len(actions) ==> (len(conflicts[s]) > 0 <==> conflictIn(states.List[s], row(terms()), off(terms()), len(terms())))
  loop 1
    invariant forall s, u int :: {conflicts[s], conflicts[u]} 0 <= s < u < len(conflicts) && cap(conflicts[s]) > 0 && cap(conflicts[u]) > 0 ==> arr(conflicts[s]) != arr(conflicts[u])
    invariant forall s, i int :: {conflicts[s][i]} 0 <= s < len(conflicts) && 0 <= i < len(conflicts[s]) ==> conflicts[s][i] != nil
    invariant same(anyfield("states.ContextSet.List"), anyelems("string"), anymap("map[string]bool"))
    invariant len(actions) == len(states.List) && len(conflicts) == len(states.List) && fresh(arr(actions)) && fresh(arr(conflicts))
    invariant forall s int :: {actions[s]} 0 <= s < $i ==> fresh(ref(actions[s])) && actions[s] != nil
    invariant forall s, u int :: {actions[s], actions[u]} 0 <= s < u < $i ==> ref(actions[s]) != ref(actions[u])
    invariant forall s, i int :: {actions[s][terms()[i]]} 0 <= s < $i && 0 <= i < len(terms()) ==> actionIs(states.List[s], terms()[i], actions[s][terms()[i]])
    invariant forall s int :: {conflicts[s]} 0 <= s < $i ==> (len(conflicts[s]) > 0 <==> conflictIn(states.List[s], row(terms()), off(terms()), len(terms())))
    invariant forall s int :: {conflicts[s]} $i <= s < len(conflicts) ==> len(conflicts[s]) == 0 && cap(conflicts[s]) == 0
    invariant forall s int :: {conflicts[s]} 0 <= s < len(conflicts) && cap(conflicts[s]) > 0 ==> fresh(arr(conflicts[s]))
  loop 2
    invariant forall s, u int :: {conflicts[s], conflicts[u]} 0 <= s < u < len(conflicts) && cap(conflicts[s]) > 0 && cap(conflicts[u]) > 0 ==> arr(conflicts[s]) != arr(conflicts[u])
    invariant forall s, i int :: {conflicts[s][i]} 0 <= s < len(conflicts) && 0 <= i < len(conflicts[s]) ==> conflicts[s][i] != nil
    invariant same(anyfield("states.ContextSet.List"), anyelems("string"), anymap("map[string]bool"))
    invariant len(actions) == len(states.List) && len(conflicts) == len(states.List) && fresh(arr(actions)) && fresh(arr(conflicts))
    invariant forall s int :: {actions[s]} 0 <= s < $i_1 + 1 ==> fresh(ref(actions[s])) && actions[s] != nil
    invariant forall s, u int :: {actions[s], actions[u]} 0 <= s < u < $i_1 + 1 ==> ref(actions[s]) != ref(actions[u])
    invariant forall s, i int :: {actions[s][terms()[i]]} 0 <= s < $i_1 && 0 <= i < len(terms()) ==> actionIs(states.List[s], terms()[i], actions[s][terms()[i]])
    invariant forall s int :: {conflicts[s]} 0 <= s < $i_1 ==> (len(conflicts[s]) > 0 <==> conflictIn(states.List[s], row(terms()), off(terms()), len(terms())))
    invariant forall s int :: {conflicts[s]} $i_1 < s < len(conflicts) ==> len(conflicts[s]) == 0 && cap(conflicts[s]) == 0
    invariant forall s int :: {conflicts[s]} 0 <= s < len(conflicts) && cap(conflicts[s]) > 0 ==> fresh(arr(conflicts[s]))
    invariant forall i int :: {actions[si][terms()[i]]} 0 <= i < $i ==> actionIs(state, terms()[i], actions[si][terms()[i]])
    invariant len(conflicts[si]) > 0 <==> conflictIn(state, row(terms()), off(terms()), $i)
