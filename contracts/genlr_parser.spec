package $GEN/parser

// ---- the tables ----
define inTab(s int) bool = 0 <= s < len(actionTab)
define act(s, t int) action = actionTab[s].actions[t]
define isShiftTo(s, t, u int) bool = typeis(act(s, t), shift) && as(act(s, t), shift) == u
define isReduceBy(s, t, r int) bool = typeis(act(s, t), reduce) && as(act(s, t), reduce) == r
define gotoOf(s, n int) int = gotoTab[s][n]
// one step of the automaton
opaque edgeTo(s, u int) bool = (exists t int :: {act(s, t)} isShiftTo(s, t, u)) || (exists n int :: {gotoOf(s, n)} 0 <= n < numNTSymbols && gotoOf(s, n) == u)
// the states on the stack are a path of the automaton from its start
opaque pathOK(R arr[int], o, n int) bool = n > 0 && at(R, o, 0) == 0 && (forall k int :: {at(R, o, k)} 0 <= k < n ==> inTab(at(R, o, k))) && (forall k int :: {at(R, o, k)} 1 <= k < n ==> edgeTo(at(R, o, k - 1), at(R, o, k)))
framed edgeTo pathOK
define numSyms(r int) int = productionsTable[r].NumSymbols
define ruleNT(r int) int = productionsTable[r].NTType
// on every path the automaton can reduce what it says it can
define redOK(R arr[int], o, n, r int) bool = 0 <= r < len(productionsTable) && 0 <= numSyms(r) && numSyms(r) < n && productionsTable[r].ReduceFunc != nil && 0 <= ruleNT(r) < numNTSymbols && inTab(gotoOf(at(R, o, n - 1 - numSyms(r)), ruleNT(r)))
define rowsOK() bool = forall s, t int :: {act(s, t)} {t in actionTab[s].actions} inTab(s) && t in actionTab[s].actions ==> 0 <= t < len(token.TypeToID) && act(s, t) != nil
define lrTab() bool = rowsOK() && (forall s, t int :: {act(s, t)} inTab(s) && act(s, t) != nil ==> typeis(act(s, t), accept) || typeis(act(s, t), shift) || typeis(act(s, t), reduce)) && (forall s, t int :: {act(s, t)} inTab(s) && typeis(act(s, t), shift) ==> inTab(as(act(s, t), shift)) && t != token.EOF) && (forall R arr[int], o, n, t int :: {pathOK(R, o, n), act(at(R, o, n - 1), t)} pathOK(R, o, n) && typeis(act(at(R, o, n - 1), t), accept) ==> n >= 2) && (forall R arr[int], o, n, t int :: {pathOK(R, o, n), act(at(R, o, n - 1), t)} pathOK(R, o, n) && typeis(act(at(R, o, n - 1), t), reduce) ==> redOK(R, o, n, as(act(at(R, o, n - 1), t), reduce)))
// no state recovers from errors: no rule has the error token
define noRecovery() bool = forall s int :: {actionTab[s].canRecover} {act(s, token.Error)} inTab(s) ==> !actionTab[s].canRecover && act(s, token.Error) == nil

// ---- the functions of the AST ----
// the function f may return v and e for the attributes A[o:o+n]
spec outcome(f func([]interface{}) (interface{}, error), A arr[interface{}], o, n int, v interface{}, e error) bool
func value:ProdTabEntry.ReduceFunc(fn, X) (res, err)
  trusted
  ensures outcome(fn, row(X), off(X), len(X), res, err)

// ---- the stack ----
define stkOK(s *stack) bool = s != nil && len(s.state) == len(s.attrib) && cap(s.state) > 0 && cap(s.attrib) > 0
func newStack() (res)
  ensures fresh(res) && stkOK(res) && len(res.state) == 0 && fresh(arr(res.state)) && fresh(arr(res.attrib))

func (*stack).reset(this)
  requires stkOK(this)
  modifies this.state, this.attrib
  ensures stkOK(this) && len(this.state) == 0

func (*stack).push(this, s, a)
  requires stkOK(this)
  modifies this.state, this.attrib, elems(this.state), elems(this.attrib)
  ensures stkOK(this) && len(this.state) == old(len(this.state)) + 1
  ensures forall k int :: {this.state[k]} {old(this.state[k])} 0 <= k < old(len(this.state)) ==> this.state[k] == old(this.state[k])
  ensures forall k int :: {this.attrib[k]} {old(this.attrib[k])} 0 <= k < old(len(this.state)) ==> this.attrib[k] == old(this.attrib[k])
  ensures this.state[old(len(this.state))] == s && this.attrib[old(len(this.state))] == a
  ensures arr(this.state) == old(arr(this.state)) || fresh(arr(this.state))
  ensures arr(this.attrib) == old(arr(this.attrib)) || fresh(arr(this.attrib))

func (*stack).top(this) (res)
  requires stkOK(this) && len(this.state) > 0
  ensures res == this.state[len(this.state) - 1]

func (*stack).peek(this, pos) (res)
  requires stkOK(this) && 0 <= pos < len(this.state)
  ensures res == this.state[pos]

func (*stack).topIndex(this) (res)
  requires this != nil
  ensures res == len(this.state) - 1

func (*stack).popN(this, items) (res)
  requires stkOK(this) && 0 <= items <= len(this.state)
  modifies this.state, this.attrib
  ensures stkOK(this) && len(this.state) == old(len(this.state)) - items
  ensures arr(this.state) == old(arr(this.state)) && off(this.state) == old(off(this.state)) && arr(this.attrib) == old(arr(this.attrib)) && off(this.attrib) == old(off(this.attrib))
  ensures len(res) == items && arr(res) == arr(this.attrib) && off(res) == off(this.attrib) + len(this.state)

func (*stack).peekN(this, items) (res)
  requires stkOK(this) && 0 <= items <= len(this.state)
  ensures len(res) == items && arr(res) == arr(this.attrib) && off(res) == off(this.attrib) + len(this.state) - items

// ---- the machine ----
// with the tokens K[ko:ko+kn], the machine can have the states S and the attributes A on
// its stack, n of them, when token i is next
spec reach(K arr[*token.Token], ko, kn int, S arr[int], so int, A arr[interface{}], ao, n, i int) bool
  reads at(K, 0, 0).typ, act(0, 0), gotoOf(0, 0), numSyms(0), ruleNT(0), productionsTable[0].ReduceFunc
opaque alike(S arr[int], so int, A arr[interface{}], ao int, S2 arr[int], so2 int, A2 arr[interface{}], ao2, n int) bool = forall k int :: {at(S2, so2, k)} {at(A2, ao2, k)} 0 <= k < n ==> at(S2, so2, k) == at(S, so, k) && at(A2, ao2, k) == at(A, ao, k)
axiom reachStart: forall K arr[*token.Token], ko, kn int, S arr[int], so int, A arr[interface{}], ao int :: {reach(K, ko, kn, S, so, A, ao, 1, 0)} at(S, so, 0) == 0 && at(A, ao, 0) == nil ==> reach(K, ko, kn, S, so, A, ao, 1, 0)
axiom reachShift: forall K arr[*token.Token], ko, kn int, S arr[int], so int, A arr[interface{}], ao, n, i int, S2 arr[int], so2 int, A2 arr[interface{}], ao2, n2, i2 int :: {reach(K, ko, kn, S, so, A, ao, n, i), alike(S, so, A, ao, S2, so2, A2, ao2, n), reach(K, ko, kn, S2, so2, A2, ao2, n2, i2)} reach(K, ko, kn, S, so, A, ao, n, i) && n2 == n + 1 && i2 == i + 1 && 0 <= i < kn && n > 0 && alike(S, so, A, ao, S2, so2, A2, ao2, n) && isShiftTo(at(S, so, n - 1), at(K, ko, i).typ, at(S2, so2, n)) && typeis(at(A2, ao2, n), *token.Token) && as(at(A2, ao2, n), *token.Token) == at(K, ko, i) ==> reach(K, ko, kn, S2, so2, A2, ao2, n2, i2)
axiom reachReduce: forall K arr[*token.Token], ko, kn int, S arr[int], so int, A arr[interface{}], ao, n, i, r, m int, S2 arr[int], so2 int, A2 arr[interface{}], ao2, n2 int :: {reach(K, ko, kn, S, so, A, ao, n, i), alike(S, so, A, ao, S2, so2, A2, ao2, m), reach(K, ko, kn, S2, so2, A2, ao2, n2, i), productionsTable[r].ReduceFunc} reach(K, ko, kn, S, so, A, ao, n, i) && n2 == m + 1 && m == n - numSyms(r) && 0 <= i < kn && 0 <= numSyms(r) < n && alike(S, so, A, ao, S2, so2, A2, ao2, m) && isReduceBy(at(S, so, n - 1), at(K, ko, i).typ, r) && outcome(productionsTable[r].ReduceFunc, A, ao + m, numSyms(r), at(A2, ao2, m), nil) && at(S2, so2, m) == gotoOf(at(S, so, m - 1), ruleNT(r)) ==> reach(K, ko, kn, S2, so2, A2, ao2, n2, i)

define reached(p *Parser, n, i int) bool = reach(row(p.tokens), off(p.tokens), len(p.tokens), row(p.stack.state), off(p.stack.state), row(p.stack.attrib), off(p.stack.attrib), n, i)
define onPath(p *Parser, n int) bool = pathOK(row(p.stack.state), off(p.stack.state), n)
define cur(p *Parser) int = p.i - 1
define curTyp(p *Parser) int = p.tokens[p.i - 1].typ
// the state k levels below the top
define parserOK(p *Parser) bool = p != nil && stkOK(p.stack) && len(p.tokens) > 0 && p.tokens[len(p.tokens) - 1].typ == token.EOF && (forall k int :: {p.tokens[k]} 0 <= k < len(p.tokens) ==> tokOK(p.tokens[k]) && 0 <= p.tokens[k].typ < len(token.TypeToID))
define reading(p *Parser) bool = 1 <= p.i <= len(p.tokens) && p.nextToken == p.tokens[p.i - 1]

func New(lex) (p)
  requires lex != nil
  ensures fresh(p) && fresh(p.stack) && stkOK(p.stack) && len(p.stack.state) == 1 && p.stack.state[0] == 0 && p.stack.attrib[0] == nil && p.i == 0 && p.tokens == lex.Tokens && p.lex == lex

func (*Parser).next(p)
  requires p != nil && 0 <= p.i
  modifies p.i, p.nextToken
  ensures old(p.i) < len(p.tokens) ==> p.i == old(p.i) + 1 && p.nextToken == p.tokens[old(p.i)]
  ensures old(p.i) >= len(p.tokens) ==> p.i == old(p.i) && p.nextToken == old(p.nextToken)

func (*Parser).firstRecoveryState(P) (recoveryState, canRecover)
  reveal pathOK
  requires P != nil && stkOK(P.stack) && onPath(P, len(P.stack.state))
  ensures 0 <= recoveryState < len(P.stack.state)
  ensures canRecover ==> actionTab[P.stack.state[recoveryState]].canRecover
  ensures !canRecover ==> (forall k int :: {P.stack.state[k]} 0 <= k < len(P.stack.state) ==> !actionTab[P.stack.state[k]].canRecover)
  ensures forall k int :: {P.stack.state[k]} recoveryState < k < len(P.stack.state) ==> !actionTab[P.stack.state[k]].canRecover
  ensures noRecovery() ==> !canRecover
  loop 1
    invariant 0 <= recoveryState < len(P.stack.state)
    invariant canRecover <==> actionTab[P.stack.state[recoveryState]].canRecover
    invariant forall k int :: {P.stack.state[k]} recoveryState < k < len(P.stack.state) ==> !actionTab[P.stack.state[k]].canRecover
    decreases recoveryState

func (*Parser).popNonRecoveryStates(P) (removedAttribs)
  reveal pathOK
  requires P != nil && stkOK(P.stack) && onPath(P, len(P.stack.state))
  modifies P.stack.state, P.stack.attrib
  ensures stkOK(P.stack) && 0 < len(P.stack.state) && len(P.stack.state) + len(removedAttribs) == old(len(P.stack.state))
  ensures arr(P.stack.state) == old(arr(P.stack.state)) && off(P.stack.state) == old(off(P.stack.state)) && arr(P.stack.attrib) == old(arr(P.stack.attrib)) && off(P.stack.attrib) == old(off(P.stack.attrib))
  ensures onPath(P, len(P.stack.state))
  ensures noRecovery() ==> P.stack.state == old(P.stack.state) && P.stack.attrib == old(P.stack.attrib)

// the error token can only be shifted
define errShift() bool = forall s int :: {act(s, token.Error)} inTab(s) && act(s, token.Error) != nil ==> typeis(act(s, token.Error), shift) && inTab(as(act(s, token.Error), shift))
func (*Parser).Error(P, err) (recovered, errorAttrib)
  reveal pathOK
  requires parserOK(P) && errShift() && rowsOK() && onPath(P, len(P.stack.state)) && reading(P)
  modifies P.stack.state, P.stack.attrib, elems(P.stack.state), elems(P.stack.attrib), P.i, P.nextToken
  ensures parserOK(P) && reading(P)
  ensures fresh(errorAttrib) && errorAttrib.ErrorToken == old(P.nextToken)
  ensures noRecovery() ==> !recovered && P.i == old(P.i) && P.nextToken == old(P.nextToken) && P.stack.state == old(P.stack.state) && P.stack.attrib == old(P.stack.attrib) && row(P.stack.state) == old(row(P.stack.state)) && row(P.stack.attrib) == old(row(P.stack.attrib))
  ensures recovered ==> act(P.stack.state[len(P.stack.state) - 1], P.nextToken.typ) != nil
  loop 1
    invariant errorAttrib.ErrorToken == P.nextToken && fresh(errorAttrib) && fresh(arr(errorAttrib.ExpectedTokens)) && cap(errorAttrib.ExpectedTokens) > 0
  loop 2
    invariant parserOK(P) && reading(P) && len(P.stack.state) > 0 && inTab(P.stack.state[len(P.stack.state) - 1])
    invariant recovered ==> act(P.stack.state[len(P.stack.state) - 1], P.nextToken.typ) != nil
    decreases len(P.tokens) - P.i

// the text of an error
spec errText(e error) string
func @errors.New(text) (res)
  trusted
  ensures res != nil && errText(res) == text
define tokText(t *token.Token) string = sprintf("%s (%d,%d) %s", token.TypeToID[t.typ], t.lext, t.rext, str_of_runes(row(t.input), off(t.input) + t.lext, t.rext - t.lext))
define errHead(t *token.Token) string = sprintf("Error @ line %d col %d tok %s", lcLine(row(t.input), off(t.input), t.lext), lcCol(row(t.input), off(t.input), t.lext), tokText(t))
func @error.Error(e) (res)
  trusted
  ensures res == errText(e)
// l names the tokens in X, in some order, with the names N[o:]
spec listing(l string, X set[token.Type], N arr[string], o int) bool
axiom listNone: forall N arr[string], o int :: {listing("", emptyset(token.Type), N, o)} listing("", emptyset(token.Type), N, o)
axiom listOne: forall l string, X set[token.Type], t token.Type, N arr[string], o int :: {listing(l, X, N, o), add(X, t)} listing(l, X, N, o) && !(t in X) ==> listing(l + sprintf("%s ", at(N, o, t)), add(X, t), N, o)
define lists(l string, X set[token.Type]) bool = listing(l, X, row(token.TypeToID), off(token.TypeToID))
define topOf(p *Parser) int = p.stack.state[len(p.stack.state) - 1]
func (*Parser).newError(P, err) (res)
  requires parserOK(P) && reading(P) && rowsOK() && len(P.stack.state) > 0 && inTab(topOf(P))
  ensures res != nil
  ensures err == nil ==> (exists l string :: {lists(l, dom(actionTab[topOf(P)].actions))} lists(l, dom(actionTab[topOf(P)].actions)) && errText(res) == errHead(P.nextToken) + ", expected one of: " + l)
  ensures err != nil ==> errText(res) == errHead(P.nextToken) + errText(err)
  loop 1
    invariant exists l string :: {lists(l, $seen)} lists(l, $seen) && buf(w) == errHead(P.nextToken) + ", expected one of: " + l

// the parse: what the machine says, and nothing else
define accepted(p *Parser, res interface{}) bool = reached(p, len(p.stack.state) + 1, cur(p)) && typeis(act(at(row(p.stack.state), off(p.stack.state), len(p.stack.state)), curTyp(p)), accept) && res == at(row(p.stack.attrib), off(p.stack.attrib), len(p.stack.state))
define stuck(p *Parser) bool = reached(p, len(p.stack.state), cur(p)) && act(topOf(p), curTyp(p)) == nil
define failedRule(p *Parser, r int, v interface{}, e error) bool = reached(p, len(p.stack.state) + numSyms(r), cur(p)) && isReduceBy(at(row(p.stack.state), off(p.stack.state), len(p.stack.state) + numSyms(r) - 1), curTyp(p), r) && outcome(productionsTable[r].ReduceFunc, row(p.stack.attrib), off(p.stack.attrib) + len(p.stack.state), numSyms(r), v, e)
func (*Parser).Parse(p) (res, err)
  noterm
  reveal pathOK, edgeTo, alike
  requires parserOK(p) && lrTab() && noRecovery() && p.i == 0 && len(p.stack.state) == 1 && p.stack.state[0] == 0 && p.stack.attrib[0] == nil && inTab(0)
  modifies p.i, p.nextToken, p.stack.state, p.stack.attrib, elems(p.stack.state), elems(p.stack.attrib)
  ensures err == nil ==> reading(p) && accepted(p, res)
  ensures err != nil ==> reading(p) && (stuck(p) && (exists l string :: {lists(l, dom(actionTab[topOf(p)].actions))} lists(l, dom(actionTab[topOf(p)].actions)) && errText(err) == errHead(p.tokens[cur(p)]) + ", expected one of: " + l) || (exists r int, v interface{}, e error :: {outcome(productionsTable[r].ReduceFunc, row(p.stack.attrib), off(p.stack.attrib) + len(p.stack.state), numSyms(r), v, e)} failedRule(p, r, v, e) && e != nil && errText(err) == errHead(p.tokens[cur(p)]) + errText(e)))
  loop 1
    invariant parserOK(p) && reading(p) && p.tokens == old(p.tokens) && p.stack == old(p.stack)
    invariant arr(p.stack.state) == old(arr(p.stack.state)) || fresh(arr(p.stack.state))
    invariant arr(p.stack.attrib) == old(arr(p.stack.attrib)) || fresh(arr(p.stack.attrib))
    end step: !acc ==> alike(start(row(p.stack.state)), start(off(p.stack.state)), start(row(p.stack.attrib)), start(off(p.stack.attrib)), row(p.stack.state), off(p.stack.state), row(p.stack.attrib), off(p.stack.attrib), len(p.stack.state) - 1)
    invariant !acc ==> onPath(p, len(p.stack.state))
    invariant !acc ==> reached(p, len(p.stack.state), cur(p))
    invariant acc ==> accepted(p, res)

// the tables of the generated parser, as far as one state at a time can tell
func tables:driver()
  initial actionTab, gotoTab, productionsTable, token.TypeToID
  ensures inTab(0) && rowsOK()
  ensures noRecovery()
  ensures forall s, t int :: {act(s, t)} inTab(s) && act(s, t) != nil ==> typeis(act(s, t), accept) || typeis(act(s, t), shift) || typeis(act(s, t), reduce)
  ensures forall s, t int :: {act(s, t)} inTab(s) && typeis(act(s, t), shift) ==> inTab(as(act(s, t), shift)) && t != token.EOF
  ensures forall r int :: {productionsTable[r]} 0 <= r < len(productionsTable) ==> 0 <= ruleNT(r) < numNTSymbols && 0 <= numSyms(r) && productionsTable[r].ReduceFunc != nil && productionsTable[r].Index == r
  ensures forall s, n int :: {gotoOf(s, n)} inTab(s) && 0 <= n < numNTSymbols ==> gotoOf(s, n) == 0 - 1 || inTab(gotoOf(s, n))
  ensures forall s, t int :: {act(s, t)} inTab(s) && typeis(act(s, t), reduce) ==> 0 <= as(act(s, t), reduce) < len(productionsTable)
