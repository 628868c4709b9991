package github.com/goccmack/gogll/v3/lr1/items

define itemIs(t *Item) bool = t != nil && 0 <= t.Position <= len(t.Symbols)
// u is the item with the dot one symbol further
define moved(t, u *Item) bool = u.BasicProdIdx == t.BasicProdIdx && u.Id == t.Id && u.Symbols == t.Symbols && u.Position == t.Position + 1
define keyed(t *Item) bool = t.hashKey == sprintf("%d:%d", t.BasicProdIdx, t.Position)

func itemHashKey(pIndex, pos) (res)
  ensures res == sprintf("%d:%d", pIndex, pos)

func makeItemString(prodId, symbols, pos) (res)
  trusted

func (*Item).Equal(this, that) (res)
  ensures res <==> this != nil && that != nil && this.hashKey == that.hashKey

func (*Item).ExpectedSymbol(this) (res)
  requires itemIs(this)
  ensures res == ite(this.Position < len(this.Symbols), this.Symbols[this.Position], "")

func (*Item).HashKey(this) (res)
  requires this != nil
  ensures res == this.hashKey

func (*Item).Reduce(this) (res)
  requires this != nil
  ensures res <==> this.Position >= len(this.Symbols)

func (*Item).Shift(this) (res)
  requires this != nil
  ensures res <==> this.Position < len(this.Symbols)

func (*Item).TailString(this) (res)
  requires itemIs(this)
  ensures len(res) == ite(this.Position < len(this.Symbols), len(this.Symbols) - this.Position - 1, 0)
  ensures forall i int :: {res[i]} 0 <= i < len(res) ==> res[i] == this.Symbols[this.Position + 1 + i]
  ensures fresh(arr(res)) || cap(res) == 0 || arr(res) == arr(this.Symbols)

func (*Item).nextItem(this) (res)
  requires itemIs(this)
  ensures res == nil <==> this.Position == len(this.Symbols)
  ensures res != nil ==> fresh(res) && itemIs(res) && moved(this, res) && keyed(res) && res.NextItem == nil

// the items of one rule: position i of the list has the dot before symbol i
define chain(R arr[*Item], o, n int) bool = forall i int :: {at(R, o, i)} 0 <= i < n ==> itemIs(at(R, o, i)) && at(R, o, i).Position == i && keyed(at(R, o, i)) && at(R, o, i).Symbols == at(R, o, 0).Symbols && at(R, o, i).Id == at(R, o, 0).Id && at(R, o, i).BasicProdIdx == at(R, o, 0).BasicProdIdx
define linked(R arr[*Item], o, n int) bool = forall i int :: {at(R, o, i).NextItem} 0 <= i < n ==> at(R, o, i).NextItem == at(R, o, i + 1)
func NewItem(head, alt, index) (items)
  requires altOK(alt)
  ensures len(items) == len(alt.Symbols) + 1
  ensures chain(row(items), off(items), len(items)) && linked(row(items), off(items), len(items) - 1) && items[len(items) - 1].NextItem == nil
  ensures items[0].Id == head && items[0].BasicProdIdx == index && len(items[0].Symbols) == len(alt.Symbols)
  ensures forall i int :: {items[0].Symbols[i]} 0 <= i < len(alt.Symbols) ==> items[0].Symbols[i] == symID(alt.Symbols[i])
  ensures fresh(arr(items)) && (forall i int :: {items[i]} 0 <= i < len(items) ==> fresh(items[i]))
  loop 1
    invariant fresh(arr(items)) && fresh(item) && itemIs(item) && keyed(item) && item.Id == head && item.BasicProdIdx == index && item.Position == len(items) && item.NextItem == nil
    invariant len(item.Symbols) == len(alt.Symbols) && (next == nil <==> item.Position == len(item.Symbols))
    invariant next != nil ==> fresh(next) && next != item && itemIs(next) && moved(item, next) && keyed(next) && next.NextItem == nil
    invariant forall i int :: {items[i]} 0 <= i < len(items) ==> fresh(items[i]) && items[i] != next && items[i] != item && items[i] != nil
    invariant forall i int :: {items[i]} 0 <= i < len(items) ==> items[i].Position == i && keyed(items[i]) && items[i].Symbols == item.Symbols && items[i].Id == head && items[i].BasicProdIdx == index
    invariant forall i int :: {items[i].NextItem} 0 <= i < len(items) - 1 ==> items[i].NextItem == items[i + 1]
    invariant len(items) > 0 ==> items[len(items) - 1].NextItem == item
    invariant forall i int :: {item.Symbols[i]} 0 <= i < len(alt.Symbols) ==> item.Symbols[i] == symID(alt.Symbols[i])
    decreases len(item.Symbols) - item.Position

// ---- all items ----
// the item at position i of the list is in the map
define itemsOK(s *Items) bool = s != nil && s.idxMap != nil && s.startItems != nil && (forall i int :: {s.List[i]} 0 <= i < len(s.List) ==> itemIs(s.List[i]) && keyed(s.List[i]) && s.List[i].hashKey in s.idxMap) && (forall k string :: {k in s.idxMap} k in s.idxMap ==> 0 <= s.idxMap[k] < len(s.List) && s.List[s.idxMap[k]].hashKey == k)
define nextIs(t *Item) bool = (t.NextItem == nil <==> t.Position == len(t.Symbols)) && (t.NextItem != nil ==> itemIs(t.NextItem) && moved(t, t.NextItem) && keyed(t.NextItem))
define below(s *Items, n int) bool = forall i int :: {s.List[i]} 0 <= i < len(s.List) ==> s.List[i].BasicProdIdx < n
// the start items of the first n rules with head h, by number of the rule
opaque startsAre(S arr[*Item], o, m int, P arr[*basicprod.Production], p, n int, h string) bool = (forall i int :: {at(S, o, i)} 0 <= i < m ==> itemIs(at(S, o, i)) && at(S, o, i).Position == 0 && keyed(at(S, o, i)) && 0 <= at(S, o, i).BasicProdIdx < n && at(S, o, i).Id == h && at(P, p, at(S, o, i).BasicProdIdx).Head == h) && (forall k int :: {at(P, p, k)} 0 <= k < n && at(P, p, k).Head == h ==> (exists i int :: {at(S, o, i)} 0 <= i < m && at(S, o, i).BasicProdIdx == k))
func (*Items).newItems(this, head, alt, prodIdx)
  requires itemsOK(this) && altOK(alt) && below(this, prodIdx) && cap(this.List) > 0
  requires forall h string :: {this.startItems[h]} cap(this.startItems[h]) > 0 ==> arr(this.startItems[h]) != arr(this.List)
  modifies this.List, elems(this.List), mapof(this.idxMap), mapof(this.startItems), elems(this.startItems[head])
  ensures itemsOK(this) && below(this, prodIdx + 1) && cap(this.List) > 0
  ensures arr(this.List) == old(arr(this.List)) || fresh(arr(this.List))
  ensures len(this.List) == old(len(this.List)) + len(alt.Symbols) + 1
  ensures forall i int :: {this.List[i]} 0 <= i < old(len(this.List)) ==> this.List[i] == old(this.List[i])
  ensures forall i int :: {this.List[i]} old(len(this.List)) <= i < len(this.List) ==> this.List[i].BasicProdIdx == prodIdx && this.List[i].Id == head && this.List[i].Position == i - old(len(this.List)) && len(this.List[i].Symbols) == len(alt.Symbols) && nextIs(this.List[i])
  ensures forall i int :: {this.List[i].NextItem} old(len(this.List)) <= i < len(this.List) - 1 ==> this.List[i].NextItem == this.List[i + 1]
  ensures forall i, j int :: {this.List[i].Symbols[j]} old(len(this.List)) <= i < len(this.List) && 0 <= j < len(alt.Symbols) ==> this.List[i].Symbols[j] == symID(alt.Symbols[j])
  ensures forall h string :: {this.startItems[h]} h != head ==> this.startItems[h] == old(this.startItems[h])
  ensures len(this.startItems[head]) == old(len(this.startItems[head])) + 1
  ensures this.startItems[head][len(this.startItems[head]) - 1] == this.List[old(len(this.List))]
  ensures fresh(arr(this.startItems[head])) && cap(this.startItems[head]) > 0 || old(cap(this.startItems[head])) > 0 && arr(this.startItems[head]) == old(arr(this.startItems[head]))
  ensures arr(this.startItems[head]) != arr(this.List)
  ensures forall i int :: {this.startItems[head][i]} {old(this.startItems[head][i])} 0 <= i < old(len(this.startItems[head])) ==> this.startItems[head][i] == old(this.startItems[head][i])
  loop 1
    invariant itemsOK(this) && below(this, prodIdx + 1) && cap(this.List) > 0
    invariant arr(this.List) == old(arr(this.List)) || fresh(arr(this.List))
    invariant arr(this.List) != arr(items) && arr(this.List) != arr(this.startItems[head])
    invariant len(this.List) == old(len(this.List)) + $i
    invariant forall i int :: {this.startItems[head][i]} 0 <= i < len(this.startItems[head]) ==> this.startItems[head][i] == before(this.startItems[head][i])
    invariant forall i int :: {this.List[i]} 0 <= i < old(len(this.List)) ==> this.List[i] == old(this.List[i])
    invariant forall i int :: {this.List[i]} old(len(this.List)) <= i < len(this.List) ==> this.List[i] == items[i - old(len(this.List))]
    invariant forall i int :: {items[i]} 0 <= i < len(items) ==> items[i] == before(items[i])

// the item is one of rule p
opaque itemOf(t *Item, p *basicprod.Production) bool = t.Id == p.Head && len(t.Symbols) == len(p.Body.Symbols) && (forall j int :: {t.Symbols[j]} 0 <= j < len(t.Symbols) ==> t.Symbols[j] == symID(p.Body.Symbols[j]))
framed itemOf startsAre
define itemsListed(s *Items, P []*basicprod.Production, n int) bool = forall i int :: {s.List[i]} 0 <= i < len(s.List) ==> 0 <= s.List[i].BasicProdIdx < n && nextIs(s.List[i]) && itemOf(s.List[i], P[s.List[i].BasicProdIdx])
func NewItems(prods) (res)
  reveal itemOf, startsAre
  requires prodsOK(prods)
  ensures itemsOK(res) && fresh(res)
  ensures itemsListed(res, prods, len(prods))
  ensures len(prods) > 0 ==> len(res.List) > 0 && res.List[0].BasicProdIdx == 0 && res.List[0].Position == 0
  ensures forall h string :: {res.startItems[h]} startsAre(row(res.startItems[h]), off(res.startItems[h]), len(res.startItems[h]), row(prods), off(prods), len(prods), h)
  loop 1
    invariant prodIdx == $i && itemsOK(items) && fresh(items) && cap(items.List) > 0 && fresh(arr(items.List)) && fresh(ref(items.idxMap)) && fresh(ref(items.startItems))
    invariant forall h string :: {items.startItems[h]} (arr(items.startItems[h]) == 0 || cap(items.startItems[h]) > 0 && fresh(arr(items.startItems[h]))) && (cap(items.startItems[h]) > 0 ==> arr(items.startItems[h]) != arr(items.List))
    invariant forall h, k string :: {items.startItems[h], items.startItems[k]} h != k && cap(items.startItems[h]) > 0 && cap(items.startItems[k]) > 0 ==> arr(items.startItems[h]) != arr(items.startItems[k])
    end olds: forall i int :: {items.List[i]} 0 <= i < start(len(items.List)) ==> items.List[i] == start(items.List[i]) && items.List[i].BasicProdIdx < $i && itemOf(items.List[i], prods[items.List[i].BasicProdIdx])
    end news: forall i int :: {items.List[i]} start(len(items.List)) <= i < len(items.List) ==> items.List[i].BasicProdIdx == $i && itemOf(items.List[i], prods[$i])
    invariant itemsListed(items, prods, $i)
    invariant $i > 0 ==> len(items.List) > 0 && items.List[0].BasicProdIdx == 0 && items.List[0].Position == 0
    end starts: forall h string :: {items.startItems[h]} h != prods[$i].Head ==> items.startItems[h] == start(items.startItems[h]) && startsAre(row(items.startItems[h]), off(items.startItems[h]), len(items.startItems[h]), row(prods), off(prods), $i, h)
    end starts1: forall h string :: {items.startItems[h]} h != prods[$i].Head ==> startsAre(row(items.startItems[h]), off(items.startItems[h]), len(items.startItems[h]), row(prods), off(prods), $i + 1, h)
    end copy: forall i int :: {items.startItems[prod.Head][i]} {start(items.startItems[prods[$i].Head][i])} 0 <= i < len(items.startItems[prod.Head]) - 1 ==> items.startItems[prod.Head][i] == start(items.startItems[prods[$i].Head][i])
    end start0: start(startsAre(row(items.startItems[prods[$i].Head]), off(items.startItems[prods[$i].Head]), len(items.startItems[prods[$i].Head]), row(prods), off(prods), $i, prods[$i].Head))
    end startA: forall i int :: {items.startItems[prod.Head][i]} 0 <= i < len(items.startItems[prod.Head]) - 1 ==> itemIs(items.startItems[prod.Head][i]) && items.startItems[prod.Head][i].Position == 0 && keyed(items.startItems[prod.Head][i]) && 0 <= items.startItems[prod.Head][i].BasicProdIdx < $i && items.startItems[prod.Head][i].Id == prod.Head && prods[items.startItems[prod.Head][i].BasicProdIdx].Head == prod.Head
    end startB: forall k int :: {prods[k]} 0 <= k < $i && prods[k].Head == prod.Head ==> (exists i int :: {items.startItems[prod.Head][i]} 0 <= i < len(items.startItems[prod.Head]) - 1 && items.startItems[prod.Head][i].BasicProdIdx == k)
    end start: startsAre(row(items.startItems[prod.Head]), off(items.startItems[prod.Head]), len(items.startItems[prod.Head]) - 1, row(prods), off(prods), $i, prod.Head)
    end start1: startsAre(row(items.startItems[prod.Head]), off(items.startItems[prod.Head]), len(items.startItems[prod.Head]), row(prods), off(prods), $i + 1, prod.Head)
    invariant forall h string :: {items.startItems[h]} startsAre(row(items.startItems[h]), off(items.startItems[h]), len(items.startItems[h]), row(prods), off(prods), $i, h)
