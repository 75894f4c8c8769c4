package main

// Bech32 address normal form: "addr"(s) is the account address encoded by the
// string s; "addrstr"(a) is the string of the address a.
func mkAddr(s *Term) *Term {
	if s.Op == "addrstr" {
		return s.Args[0]
	}
	return mk("addr", "", nil, s)
}

func mkAddrStr(a *Term) *Term {
	if a.Op == "addr" {
		return a.Args[0]
	}
	return mk("addrstr", "", nil, a)
}
