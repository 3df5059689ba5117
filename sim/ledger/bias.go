package ledger

import "verif.local/sim/core"

// Bias is the mix of a run: what clients like to build.
type Bias struct {
	Keys                          int
	AEd, AChain, AMulti, ARestr   int
	Kinds                         [7]int // new outputs: basic, account, anchor, foundry, NFT, delegation, implicit
	In                            [7]int // preferred inputs, same order
	Timelock, Expire, SDR         int    // percent
	NT, Meta, Tag, Sender, Issuer int
	IssuerFeat, Staking           int
	Destroy, Transition           int
	NoCommit                      int
	Burn                          int
	Exact                         int // percent of values placed at a boundary
	Mutate                        int // percent of transactions preceded by byzantine variants
	MutPerTx                      int
	NewOuts                       int
	Ins                           int
	Manalock                      int // percent of basic outputs when an account is spent
}

func genBias(r *core.RNG, prop string) *Bias {
	b := &Bias{Keys: r.Range(2, 6), AEd: 60, AChain: 15, AMulti: 10, ARestr: 12,
		Kinds: [7]int{40, 8, 6, 6, 8, 6, 4}, In: [7]int{10, 10, 10, 10, 10, 10, 10},
		Timelock: 12, Expire: 12, SDR: 12, NT: 35, Meta: 12, Tag: 12, Sender: 15, Issuer: 25,
		IssuerFeat: 50, Staking: 30, Destroy: 15, Transition: 50, NoCommit: 8, Burn: 15, Exact: 50, Manalock: 8,
		Mutate: 60, MutPerTx: 4, NewOuts: 3, Ins: 3}
	// swarm: every run favours and suppresses something
	for _, x := range []*int{&b.AChain, &b.AMulti, &b.ARestr, &b.Timelock, &b.Expire, &b.SDR, &b.NT, &b.Meta, &b.Tag, &b.Sender, &b.Issuer, &b.IssuerFeat, &b.Staking, &b.Destroy, &b.Burn} {
		switch r.Intn(6) {
		case 0:
			*x = *x * 2
		case 1:
			*x = *x / 4
		}
	}
	for i := range b.Kinds {
		switch r.Intn(6) {
		case 0:
			b.Kinds[i] *= 3
		case 1:
			b.Kinds[i] /= 3
		}
	}
	b.Kinds[0]++
	b.NewOuts = r.Range(1, 5)
	b.Ins = r.Range(1, 4)
	up := func(xs ...*int) {
		for _, x := range xs {
			*x = max(*x, 5) * 3
			if *x > 85 {
				*x = 85
			}
		}
	}
	switch prop {
	case "L01":
		up(&b.SDR, &b.Expire, &b.ARestr)
	case "W01":
		b.Manalock = 35
		b.In[1], b.Kinds[1] = 40, b.Kinds[1]*2
	case "L02":
		b.Manalock = 15
		up(&b.Burn)
		b.Kinds[1] *= 2
	case "L03":
		up(&b.Kinds[3], &b.Kinds[1], &b.NT)
		b.In[3], b.In[1] = 60, 30
	case "L04":
		up(&b.AMulti, &b.AChain, &b.ARestr)
		b.AMulti, b.AChain, b.ARestr = 30, 25, 20
		b.In[2] = 25
	case "L05":
		up(&b.Timelock, &b.Expire)
		b.SDR += 10
		b.Kinds[0], b.Kinds[4] = b.Kinds[0]*2, b.Kinds[4]*2
	case "L06":
		for _, i := range []int{1, 2, 3, 4, 5} {
			up(&b.Kinds[i])
			b.In[i] = 30
		}
		up(&b.Destroy, &b.Issuer, &b.Meta)
	case "L07":
		up(&b.Kinds[1], &b.Kinds[6], &b.IssuerFeat)
		b.In[1], b.In[6] = 60, 60
		up(&b.Timelock)
	case "L08":
		up(&b.Kinds[1], &b.IssuerFeat, &b.Staking)
		b.In[1] = 80
	case "L09":
		up(&b.Kinds[5])
		b.In[5] = 80
	case "L10":
		up(&b.Sender, &b.Issuer)
		b.AMulti, b.AChain, b.ARestr = 25, 25, 20
		b.In[2] = 30
	case "L11":
		b.ARestr = 60
		up(&b.Kinds[6], &b.NT, &b.Timelock, &b.Expire, &b.SDR)
		b.In[6] = 30
	case "L12":
		up(&b.Destroy, &b.Burn, &b.NT)
	case "L13":
		up(&b.SDR, &b.Meta, &b.Tag, &b.Kinds[1], &b.Kinds[6], &b.Kinds[3])
		b.Exact = 80
		b.AMulti, b.ARestr = 25, 25
	case "L14", "L15", "B03":
		up(&b.Meta, &b.Tag)
		b.AMulti = 25
	}
	return b
}
