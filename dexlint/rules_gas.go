package main

import "strings"

// P37: what is carried out at the end of the batch is paid for when asked for.

func ruleP37(w *World, r *R) {
	pays := map[string]string{"DepositRequest": "DepositExtraGas", "WithdrawRequest": "WithdrawExtraGas", "Order": "OrderExtraGas"}
	for _, u := range w.AllUnits("msg", "begin", "end", "genesis") {
		at := u.where()
		used := map[*Event]bool{}
		for _, rec := range []string{"DepositRequest", "WithdrawRequest", "Order"} {
			want := param(pays[rec])
			made := 0
			for _, x := range writes(u.Events, rec) {
				if x.Base == nil && u.Entry.Kind == "msg" {
					made++
				}
			}
			var paid []*Event
			for _, ev := range u.Events {
				if ev.Kind == "gas" && ev.Args[0] == want {
					paid = append(paid, ev)
					used[ev] = true
				}
			}
			if made == 0 && len(paid) == 0 {
				continue
			}
			free := u.Facts.has(eqL(ci(0), want)) || u.Facts.contra(ltL(ci(0), want, true))
			r.ob("PAYS-GAS", at, u.pos(), len(paid) == made || len(paid) == 0 && free, "%d %ss are made and %s is paid %d times", made, rec, pays[rec], len(paid))
			for _, ev := range paid {
				m := ev.Args[len(ev.Args)-1]
				own := m.Op == "call" && hasSuffix(m.Name, "Context).GasMeter") && len(m.Args) == 1 && m.Args[0].Op == "param"
				r.ob("GAS-METER", at, ev.Pos, own, "the gas is taken from %v", m)
			}
		}
		for _, ev := range u.Events {
			if ev.Kind == "gas" && !used[ev] {
				r.ob("ONLY-GAS", at, ev.Pos, false, "%v is charged as gas", ev.Args[0])
			}
			if (ev.Kind == "invoke" || ev.Kind == "call") && strings.Contains(ev.Name, "GasMeter.") && strings.Contains(ev.Name, "Refund") {
				r.ob("ONLY-GAS", at, ev.Pos, false, "gas is given back")
			}
		}
	}
	r.floor("PAYS-GAS", 3)
	r.floor("GAS-METER", 3)
}
