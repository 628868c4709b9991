package github.com/goccmack/gogll/v3/lex/item

// The position of an item as a sequence: p[2d] is the index of a symbol in a regular expression,
// p[2d+1] the index of an alternate of the bracket at that symbol.
define P(i *Item) string = str_of_runes(row(i.Pos.stack), off(i.Pos.stack), len(i.Pos.stack))
// the regular expression reached by the first k elements of p (k even)
rec reAt(re *ast.RegExp, p string, k int) *ast.RegExp = ite(k < 2, re, as(reAt(re, p, k-2).Symbols[rat(p, k-2)], *ast.LexBracket).Alternates[rat(p, k-1)])
define cur(re *ast.RegExp, p string) *ast.RegExp = reAt(re, p, rlen(p)-1)
define top(p string) int = rat(p, rlen(p)-1)
define symAt(re *ast.RegExp, p string) ast.LexSymbol = cur(re, p).Symbols[top(p)]
define brAt(re *ast.RegExp, p string) *ast.LexBracket = as(symAt(re, p), *ast.LexBracket)
// before a bracket; after the last symbol of an alternate of a bracket
define atBracket(re *ast.RegExp, p string) bool = top(p) < len(cur(re, p).Symbols) && typeis(symAt(re, p), *ast.LexBracket)
define atEnd(re *ast.RegExp, p string) bool = rlen(p) > 1 && top(p) >= len(cur(re, p).Symbols)

// positions: enter(p,j) before the first symbol of alternate j of the bracket at p, up(p) at the bracket p is in, next(p) after the symbol at p
spec enter(p string, j int) string
axiom enterLen: forall p string, j int :: {enter(p, j)} rlen(enter(p, j)) == rlen(p) + 2
axiom enterAt: forall p string, j, k int :: {rat(enter(p, j), k)} 0 <= k < rlen(p) + 2 ==> rat(enter(p, j), k) == ite(k < rlen(p), rat(p, k), ite(k == rlen(p), j, 0))
spec up(p string) string
axiom upLen: forall p string :: {up(p)} rlen(p) > 2 ==> rlen(up(p)) == rlen(p) - 2
axiom upAt: forall p string, k int :: {rat(up(p), k)} 0 <= k < rlen(p) - 2 ==> rat(up(p), k) == rat(p, k)
spec next(p string) string
axiom nextLen: forall p string :: {next(p)} rlen(next(p)) == rlen(p)
axiom nextAt: forall p string, k int :: {rat(next(p), k)} 0 <= k < rlen(p) ==> rat(next(p), k) == rat(p, k) + ite(k == rlen(p) - 1, 1, 0)

// regular expressions are built of nodes that are there
opaque treeOK() bool = (forall r *ast.RegExp, k int :: {r.Symbols[k]} r != nil && 0 <= k < len(r.Symbols) ==> r.Symbols[k] != nil && (typeis(r.Symbols[k], *ast.LexBracket) ==> as(r.Symbols[k], *ast.LexBracket) != nil)) && (forall b *ast.LexBracket, k int :: {b.Alternates[k]} b != nil && 0 <= k < len(b.Alternates) ==> b.Alternates[k] != nil)
opaque pathOK(re *ast.RegExp, p string) bool = re != nil && rlen(p) > 0 && (rlen(p) - 1) % 2 == 0 && (forall k int :: {reAt(re, p, k)} 0 <= k < rlen(p) && k % 2 == 0 ==> reAt(re, p, k) != nil && (k + 2 < rlen(p) ==> 0 <= rat(p, k) < len(reAt(re, p, k).Symbols) && typeis(reAt(re, p, k).Symbols[rat(p, k)], *ast.LexBracket) && 0 <= rat(p, k+1) < len(as(reAt(re, p, k).Symbols[rat(p, k)], *ast.LexBracket).Alternates))) && 0 <= top(p) <= len(cur(re, p).Symbols)
define itemOK(i *Item) bool = i != nil && i.Rule != nil && i.Pos != nil && len(i.Pos.stack) > 0 && pathOK(i.Rule.RegExp, P(i))

lemma reAtSame: forall re *ast.RegExp, p, q string, k int :: {reAt(re, p, k), reAt(re, q, k)} 0 <= k && k <= rlen(p) && k <= rlen(q) && (forall i int :: {rat(p, i)} 0 <= i < k ==> rat(p, i) == rat(q, i)) ==> reAt(re, p, k) == reAt(re, q, k)
  induction k

lemma reAtUp: forall re *ast.RegExp, p string, k int :: {reAt(re, up(p), k)} rlen(p) > 2 && 0 <= k <= rlen(p) - 2 ==> reAt(re, up(p), k) == reAt(re, p, k)
lemma reAtNext: forall re *ast.RegExp, p string, k int :: {reAt(re, next(p), k)} 0 <= k < rlen(p) ==> reAt(re, next(p), k) == reAt(re, p, k)
lemma reAtEnter: forall re *ast.RegExp, p string, j, k int :: {reAt(re, enter(p, j), k)} 0 <= k <= rlen(p) ==> reAt(re, enter(p, j), k) == reAt(re, p, k)

lemma upEnter: forall p string, j int :: {up(enter(p, j))} rlen(p) > 0 ==> up(enter(p, j)) == p
lemma pathFirst: forall re *ast.RegExp, p string :: {pathOK(re, p)} pathOK(re, p) ==> re != nil && rlen(p) > 0 && (rlen(p) > 1 ==> rlen(p) > 2) && cur(re, p) != nil && 0 <= top(p) <= len(cur(re, p).Symbols)
  reveal pathOK
lemma pathUp: forall re *ast.RegExp, p string :: {pathOK(re, p), up(p)} pathOK(re, p) && rlen(p) > 2 ==> pathOK(re, up(p)) && atBracket(re, up(p))
  reveal pathOK
lemma pathNext: forall re *ast.RegExp, p string :: {pathOK(re, p), next(p)} pathOK(re, p) && top(p) < len(cur(re, p).Symbols) ==> pathOK(re, next(p))
  reveal pathOK
lemma brThere: forall re *ast.RegExp, p string :: {pathOK(re, p), treeOK()} pathOK(re, p) && treeOK() && atBracket(re, p) ==> brAt(re, p) != nil
  reveal treeOK
lemma enterCur: forall re *ast.RegExp, p string, j int :: {pathOK(re, p), enter(p, j)} pathOK(re, p) && treeOK() && atBracket(re, p) && 0 <= j < len(brAt(re, p).Alternates) && reAt(re, enter(p, j), rlen(p) - 1) == cur(re, p) ==> brAt(re, p) != nil && cur(re, enter(p, j)) == brAt(re, p).Alternates[j] && cur(re, enter(p, j)) != nil
  reveal pathOK treeOK
lemma pathEnter: forall re *ast.RegExp, p string, j int :: {pathOK(re, p), enter(p, j)} pathOK(re, p) && treeOK() && atBracket(re, p) && 0 <= j < len(brAt(re, p).Alternates) ==> pathOK(re, enter(p, j))
  reveal pathOK treeOK

func From(rule, p) (res)
  ensures fresh(res) && res.Rule == rule && res.Pos == p

func New(rule) (res)
  ensures fresh(res) && res.Rule == rule && fresh(res.Pos) && len(res.Pos.stack) == 1 && res.Pos.stack[0] == 0

func (*Item).GetRegExp(i) (res)
  reveal pathOK treeOK
  requires itemOK(i) && treeOK()
  ensures res == cur(i.Rule.RegExp, P(i))
  ensures res != nil
  alias j int
  alias re *ast.RegExp
  loop 1
    invariant j >= 0 && j % 2 == 0 && j < rlen(P(i))
    invariant re == reAt(i.Rule.RegExp, P(i), j)
    decreases rlen(P(i)) - j

func (*Item).Symbol(i) (res)
  reveal pathOK treeOK
  requires itemOK(i) && treeOK()
  ensures top(P(i)) < len(cur(i.Rule.RegExp, P(i)).Symbols) ==> res == symAt(i.Rule.RegExp, P(i)) && res != nil
  ensures top(P(i)) >= len(cur(i.Rule.RegExp, P(i)).Symbols) ==> res == nil

func (*Item).IsReduce(i) (res)
  requires itemOK(i)
  ensures res <==> rlen(P(i)) == 1 && top(P(i)) >= len(i.Rule.RegExp.Symbols)

func (*Item).atBeforeBracket(i) (res)
  requires itemOK(i) && treeOK()
  ensures res <==> atBracket(i.Rule.RegExp, P(i))

func (*Item).atEndOfBracket(i) (res)
  requires itemOK(i) && treeOK()
  ensures res <==> atEnd(i.Rule.RegExp, P(i))

func (*Item).Clone(i) (res)
  requires i != nil && i.Pos != nil
  ensures fresh(res) && fresh(res.Pos) && res.Rule == i.Rule && P(res) == P(i)
  ensures len(res.Pos.stack) == len(i.Pos.stack) && fresh(arr(res.Pos.stack))

func (*Item).beforeCurrentBracket(i) (res)
  requires itemOK(i) && rlen(P(i)) > 2
  ensures fresh(res) && fresh(res.Pos) && fresh(arr(res.Pos.stack)) && res.Rule == i.Rule
  ensures P(res) == up(P(i))
  ensures itemOK(res)
  ensures atBracket(i.Rule.RegExp, up(P(i)))

func (*Item).afterCurrentBracket(i) (res)
  requires itemOK(i) && rlen(P(i)) > 2
  ensures fresh(res) && fresh(res.Pos) && res.Rule == i.Rule
  ensures P(res) == next(up(P(i)))
  ensures itemOK(res)

func (*Item).getCurrentBracket(i) (res)
  reveal treeOK
  use up(P(i))
  requires itemOK(i) && treeOK() && rlen(P(i)) > 2
  ensures res == brAt(i.Rule.RegExp, up(P(i)))
  ensures res != nil

func (*Item).Next(i) (res)
  requires itemOK(i) && treeOK()
  requires top(P(i)) < len(cur(i.Rule.RegExp, P(i)).Symbols) || rlen(P(i)) == 1
  ensures rlen(P(i)) == 1 && top(P(i)) >= len(i.Rule.RegExp.Symbols) ==> res == nil
  ensures !(rlen(P(i)) == 1 && top(P(i)) >= len(i.Rule.RegExp.Symbols)) ==> fresh(res) && res.Rule == i.Rule && P(res) == next(P(i))
  ensures !(rlen(P(i)) == 1 && top(P(i)) >= len(i.Rule.RegExp.Symbols)) ==> itemOK(res)

// items are the same when their rules have the same identifier and their positions are equal
define itOK(i *Item) bool = i != nil && ruleOK(i.Rule) && i.Pos != nil
define sameItem(a *Item, b *Item) bool = ruleID(a.Rule) == ruleID(b.Rule) && P(a) == P(b)

func (*Item).Equal(i, other) (res)
  requires itOK(i) && itOK(other)
  ensures res <==> sameItem(i, other)

func (*Item).in(i, items) (res)
  requires itOK(i) && (forall k int :: 0 <= k < len(items) ==> itOK(items[k]))
  ensures res <==> (exists k int :: {items[k]} 0 <= k < len(items) && sameItem(i, items[k]))
  loop 1
    invariant forall k int :: {items[k]} 0 <= k < $i ==> !sameItem(i, items[k])

// positions reached from p0 by moves that read nothing: the least set that contains p0 and is closed under the moves
define brType(re *ast.RegExp, p string) int = brAt(re, p).Type
spec reach(rule *ast.LexRule, p0 string, p string) bool
  reads brAt(rule.RegExp, p).Type, brAt(rule.RegExp, p).Alternates
axiom reachStart: forall rule *ast.LexRule, p, q string :: {reach(rule, p, q)} p == q ==> reach(rule, p, q)
axiom reachEnter: forall rule *ast.LexRule, p0, p string, j int :: {reach(rule, p0, p), enter(p, j)} reach(rule, p0, p) && atBracket(rule.RegExp, p) && 0 <= j < len(brAt(rule.RegExp, p).Alternates) ==> reach(rule, p0, enter(p, j))
axiom reachSkip: forall rule *ast.LexRule, p0, p string :: {reach(rule, p0, p), next(p)} reach(rule, p0, p) && atBracket(rule.RegExp, p) && (brType(rule.RegExp, p) == ast.LexOptional || brType(rule.RegExp, p) == ast.LexZeroOrMore) ==> reach(rule, p0, next(p))
axiom reachOut: forall rule *ast.LexRule, p0, p string :: {reach(rule, p0, p), next(up(p))} reach(rule, p0, p) && atEnd(rule.RegExp, p) ==> reach(rule, p0, next(up(p)))
axiom reachAgain: forall rule *ast.LexRule, p0, p string :: {reach(rule, p0, p), up(p)} reach(rule, p0, p) && atEnd(rule.RegExp, p) && (brType(rule.RegExp, up(p)) == ast.LexZeroOrMore || brType(rule.RegExp, up(p)) == ast.LexOneOrMore) ==> reach(rule, p0, up(p))

// the position is in the list
define inL(p string, s []*Item) bool = exists k int :: {s[k]} 0 <= k < len(s) && P(s[k]) == p
define inFrom(p string, s []*Item, f int) bool = exists k int :: {s[k]} f <= k < len(s) && P(s[k]) == p

func (*Item).Emoves(i) (res)
  requires itemOK(i) && treeOK() && ruleOK(i.Rule)
  ensures items: forall k int :: {res[k]} 0 <= k < len(res) ==> itemOK(res[k]) && res[k].Rule == i.Rule
  ensures basic: forall k int :: {res[k]} 0 <= k < len(res) ==> !atBracket(i.Rule.RegExp, P(res[k])) && !atEnd(i.Rule.RegExp, P(res[k]))
  ensures sound: forall k int :: {res[k]} 0 <= k < len(res) ==> reach(i.Rule, P(i), P(res[k]))
  loop 1
    invariant forall k int :: {after[k]} 0 <= k < len(after) ==> itemOK(after[k]) && after[k].Rule == i.Rule && reach(i.Rule, P(i), P(after[k]))
    invariant forall k int :: {expanded[k]} 0 <= k < len(expanded) ==> itemOK(expanded[k]) && expanded[k].Rule == i.Rule
    invariant !changed ==> forall k int :: {after[k]} 0 <= k < len(after) ==> !atBracket(i.Rule.RegExp, P(after[k])) && !atEnd(i.Rule.RegExp, P(after[k]))
    invariant fresh(arr(after)) && fresh(arr(expanded)) && arr(after) != arr(expanded)
  loop 2
    modifies elems(after), elems(expanded)
    invariant forall k int :: {after[k]} 0 <= k < len(after) ==> itemOK(after[k]) && after[k].Rule == i.Rule && reach(i.Rule, P(i), P(after[k]))
    invariant forall k int :: {before[k]} 0 <= k < len(before) ==> itemOK(before[k]) && before[k].Rule == i.Rule && reach(i.Rule, P(i), P(before[k]))
    invariant forall k int :: {expanded[k]} 0 <= k < len(expanded) ==> itemOK(expanded[k]) && expanded[k].Rule == i.Rule
    invariant !changed ==> forall k int :: {after[k]} 0 <= k < len(after) ==> !atBracket(i.Rule.RegExp, P(after[k])) && !atEnd(i.Rule.RegExp, P(after[k]))
    invariant fresh(arr(after)) && fresh(arr(expanded)) && arr(after) != arr(expanded) && arr(before) != arr(after) && arr(before) != arr(expanded)
    invariant newer(arr(expanded)) || arr(expanded) == arr(before(expanded))
    invariant newer(arr(after)) || arr(after) == arr(before(after))
  loop 3
    modifies elems(after)
    invariant rlen(enter(P(item), $i)) == rlen(P(item)) + 2
    invariant itemOK(item) && item.Rule == i.Rule && reach(i.Rule, P(i), P(item)) && atBracket(i.Rule.RegExp, P(item))
    invariant rlen(next(P(item))) == rlen(P(item))
    invariant forall k int :: {after[k]} 0 <= k < len(after) ==> itemOK(after[k]) && after[k].Rule == i.Rule && reach(i.Rule, P(i), P(after[k]))
    invariant fresh(arr(after)) && arr(after) != arr(expanded) && arr(before) != arr(after)
    invariant newer(arr(after)) || arr(after) == arr(before(after))
