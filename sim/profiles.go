package main

import "strings"

// What the runs of each check look like.

func baseProfile() Profile {
	return Profile{Steps: 60, Nodes: 1, TxMax: 5, Fault: 0.1, BadFeed: 0.05, TxFault: 0.05, Spoil: 0.01, Jump: 0.25, Retire: 0.01, Multi: 0.15, NoBoot: 0.15}
}

// profileOf is the plain profile of a check, named after its property.
func profileOf(id string) Profile {
	p := baseProfile()
	w := map[string]float64{}
	p.W = w
	switch id {
	case "C01":
		p.Nodes, p.Steps, p.Fault, p.Load = 4, 40, 0.15, 0.15
	case "C02":
		p.Nodes, p.Steps, p.Fault, p.Load = 3, 40, 0.5, 0.05
	case "C03":
		p.Jump, p.BadFeed, p.Fault = 0.35, 0.1, 0.05
		w["hostile"], w["gov"], w["plan"], w["rel"] = 1.5, 1.2, 1.5, 2
	case "C04":
		p.TxFault, p.Multi = 0.35, 0.4
		w["sdk"] = 1.5
	case "C05":
		p.Nodes, p.Steps, p.BadFeed, p.Tamper, p.Fault, p.TxMax = 2, 45, 0.3, 0.15, 0.1, 2
	case "R01":
		w["del"], w["undel"], w["sdk"] = 4, 3, 1
	case "R02":
		w["undel"], w["del"], p.Jump = 4, 3, 0.4
	case "R03":
		w["del"], w["undel"], w["gov"], w["hostile"] = 4, 3, 1, 1
	case "R04":
		w["pref"], w["del"], w["rel"], w["gov"] = 3, 4, 2, 1
	case "O01":
		p.Retire = 0.04
		w["op"], w["rel"], p.Jump = 5, 1.5, 0.35
	case "S01":
		w["svc"], w["rel"], w["gov"] = 5, 1.5, 0.8
	case "S02":
		p.Retire = 0.08
		w["rel"], w["op"], w["svc"] = 5, 1.5, 1.5
	case "W01":
		w["plan"], p.Jump = 4, 0.3
	case "W02":
		w["plan"], w["pref"], w["del"], w["op"], w["rel"] = 3, 1.5, 4, 1.5, 2
	case "W03":
		w["wd"], w["plan"], w["del"], w["undel"] = 4, 1.5, 4, 2
	case "L01":
		w["lv"], w["sdk"], w["hostile"] = 4, 1.5, 1
	case "L02":
		w["lv"], w["del"], w["undel"], w["gov"] = 4, 4, 2, 0.8
	case "L03":
		p.IBC = true
		w["ibc"], w["lv"] = 6, 2
	case "L04":
		w["lv"], w["undel"], w["del"] = 5, 2, 4
	case "G01":
		w["gov"], w["hostile"], w["vote"] = 3, 3, 0.5
	case "G02":
		w["vote"], w["gov"], w["sdk"] = 4, 2, 1
	case "A01":
		w["gov"], p.BadFeed = 3, 0.1
	case "X01":
		p.Export = 0.06
	case "V01":
		p.Spoil, p.TxMax = 0.5, 10
		w["op"], w["svc"], w["plan"], w["lv"], w["undel"] = 1.5, 1.5, 2.5, 2, 2.5
	case "X02":
		p.GenFault, p.Steps = 0.12, 45
		w["undel"], w["lv"], w["plan"] = 2.5, 4, 1.5
	case "Q01":
		p.Nodes, p.Load, p.Steps = 2, 0.6, 45
	}
	return p
}

// profileFor varies the profile of a check from seed to seed: which groups of
// actions occur, how long the run is and how much goes wrong.
func profileFor(id string, seed uint64) Profile {
	p := profileOf(id)
	r := newRng(seed, strHash("profile "+id))
	if r.p(0.5) {
		for _, g := range groups {
			if p.W[g] > 1 && r.p(0.7) { // what the check is about
				continue
			}
			if g == "ibc" && !p.IBC {
				continue
			}
			w, ok := p.W[g]
			if !ok {
				w = defaultW[g]
			}
			p.W[g] = w * pick(r, []float64{0.05, 0.4, 1, 1, 2.5})
		}
	}
	switch {
	case r.p(0.08):
		p.Steps *= 3
	case r.p(0.2):
		p.Steps /= 2
	}
	if r.p(0.3) {
		p.TxMax = pick(r, []int{2, 3, 8, 12})
	}
	if r.p(0.25) {
		p.Jump = pick(r, []float64{0.05, 0.6})
	}
	if id != "X01" && id != "X02" && id != "C05" && r.p(0.25) {
		p.Fault = 0
	}
	if p.Nodes == 1 && r.p(0.1) {
		p.Load = 0.2
	}
	return p
}

// relevant gives the events that exercise a property (prefixes of the names of
// counters) and the rule that makes a run non-trivial.
func relevant(id string) ([]string, string) {
	switch id {
	case "C01":
		return []string{"blocks"}, "executed its blocks on at least two nodes with different configurations"
	case "C02":
		return []string{"blocks_replayed", "restarts"}, "restarted at least one node"
	case "C03":
		return []string{"txs executed", "msg ", "gov "}, "executed at least one transaction"
	case "C04":
		return []string{"txs"}, "executed or refused at least one transaction"
	case "C05":
		return []string{"price changes"}, "changed at least one price"
	case "R01":
		return []string{"msg restaking.MsgDelegate", "msg restaking.MsgUndelegate", "undelegations completed"}, "restaked or unstaked something"
	case "R02":
		return []string{"msg restaking.MsgUndelegate", "undelegations completed"}, "started or completed at least one undelegation"
	case "R03":
		return []string{"msg restaking.MsgDelegate", "msg restaking.MsgUndelegate", "refused restaking.MsgDelegate", "refused restaking.MsgUndelegate"}, "accepted or refused at least one restaking or unstaking request"
	case "R04":
		return []string{"msg restaking.MsgSetUserPreferences", "msg restaking.MsgDelegatePool", "msg services.MsgAccredit"}, "changed preferences or restaked in a pool"
	case "O01":
		return []string{"msg operators.", "refused operators."}, "accepted or refused at least one operator request"
	case "S01":
		return []string{"msg services.", "refused services.", "gov services."}, "accepted or refused at least one service request"
	case "S02":
		return []string{"msg restaking.MsgJoin", "msg restaking.MsgLeave", "msg restaking.MsgAddOperator", "msg restaking.MsgRemoveOperator", "msg restaking.MsgBorrow", "msg restaking.MsgCease"}, "changed who secures a service"
	case "W01":
		return []string{"msg rewards.MsgCreateRewardsPlan", "msg rewards.MsgEditRewardsPlan", "plan allocations", "plans ended"}, "created a plan or allocated rewards"
	case "W02":
		return []string{"plan allocations"}, "allocated the rewards of a plan"
	case "W03":
		return []string{"reward payouts", "commission payouts", "plan allocations"}, "allocated or paid out rewards"
	case "L01":
		return []string{"msg liquidvesting.", "refused liquidvesting.", "refused bank.", "msg bank."}, "minted, burnt or tried to move locked tokens"
	case "L02":
		return []string{"msg liquidvesting.", "msg restaking.MsgDelegate"}, "used locked tokens or the insurance fund"
	case "L03":
		return []string{"msg channel.", "msg transfer.", "msg liquidvesting."}, "exchanged IBC packets"
	case "L04":
		return []string{"msg liquidvesting.MsgBurn", "refused liquidvesting.MsgBurn"}, "burnt or refused to burn locked tokens"
	case "G01":
		return []string{"gov ", "refused "}, "executed a proposal or refused a privileged request"
	case "G02":
		return []string{"msg gov.", "refused gov."}, "accepted or refused a vote or a proposal"
	case "A01":
		return []string{"gov assets."}, "registered or removed an asset"
	case "X01":
		return []string{"chain exported"}, "restarted the chain from an export"
	case "V01":
		return []string{"malformed "}, "sent at least one malformed request"
	case "X02":
		return []string{"state file refused"}, "started a chain from a damaged state file"
	case "Q01":
		return []string{"queries", "load: "}, "compared the answers of queries"
	}
	return []string{"txs"}, "executed transactions"
}

func isRelevant(id, key string) bool {
	ps, _ := relevant(id)
	for _, p := range ps {
		if strings.HasPrefix(key, p) {
			return true
		}
	}
	return false
}

func relevance(id string, r *result) (int, map[string]int) {
	n, m := 0, map[string]int{}
	for _, src := range []map[string]int{r.Counts, r.Faults} {
		for k, v := range src {
			if isRelevant(id, k) {
				n += v
				m[k] = v
			}
		}
	}
	if id == "C01" && r.Nodes < 2 {
		n = 0
	}
	return n, m
}
