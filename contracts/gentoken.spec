package github.com/goccmack/gogll/v3/gen/golang/token

// entry t of the table of types
define typeDef(d *TypeDef, t int) bool = d != nil && d.Name == symbols.tToTypeString[t] && d.Comment == escs(symbols.tToLiteral[t], rlen(symbols.tToLiteral[t])) && (d.Suppress <==> symbols.tSuppress[t])
define symsReady() bool = symbols.initialisized && len(symbols.tToTypeString) == len(symbols.tToLiteral) && len(symbols.tSuppress) == len(symbols.tToLiteral)
func getTypes() (types)
  requires symsReady()
  ensures len(types) == len(symbols.tToLiteral)
  ensures forall t int :: {types[t]} 0 <= t < len(types) ==> typeDef(types[t], t)
  loop 1
    invariant len(types) == $i && (arr(types) == 0 || fresh(arr(types)))
    invariant forall t int :: {types[t]} 0 <= t < $i ==> fresh(types[t]) && typeDef(types[t], t)

func getData() (res)
  requires symsReady()
  ensures res != nil && len(res.Types) == len(symbols.tToLiteral) && res.TypeToString == symbols.tToTypeString
  ensures forall t int :: {res.Types[t]} 0 <= t < len(res.Types) ==> typeDef(res.Types[t], t)
