package $GEN/parser/symbols

func tables:names()
  initial ntToString, tToString, stringNT
  ensures forall n NT :: {ntToString[n]} ntIs(n) ==> ntToString[n] in stringNT && stringNT[ntToString[n]] == n
  ensures forall s string :: {s in stringNT} s in stringNT ==> ntIs(stringNT[s]) && ntToString[stringNT[s]] == s
  ensures forall t T :: {tToString[t]} 0 <= t < len(tToString) ==> !(tToString[t] in stringNT)
  ensures !("ϵ" in stringNT)
