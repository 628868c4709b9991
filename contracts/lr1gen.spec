package github.com/goccmack/gogll/v3/lr1

func numConflicts(conflicts) (num)
  ensures num > 0 <==> (exists s, i int :: {conflicts[s][i]} 0 <= s < len(conflicts) && 0 <= i < len(conflicts[s]) && conflicts[s][i] != nil)
  loop 1
    invariant num >= 0
    invariant num > 0 <==> (exists s, i int :: {conflicts[s][i]} 0 <= s < $i && 0 <= i < len(conflicts[s]) && conflicts[s][i] != nil)
  loop 2
    invariant num >= 0
    invariant num > 0 <==> (exists s, i int :: {conflicts[s][i]} 0 <= s < $i_1 && 0 <= i < len(conflicts[s]) && conflicts[s][i] != nil) || (exists i int :: {sc[i]} 0 <= i < $i && sc[i] != nil)

// writes a file
func writeConflicts(conflicts)
  trusted

func handleConflicts(conflicts, states)
  requires cfg.AutoResolveLRConf != nil
  aborts !val(cfg.AutoResolveLRConf) && (exists s, i int :: {conflicts[s][i]} 0 <= s < len(conflicts) && 0 <= i < len(conflicts[s]) && conflicts[s][i] != nil)
