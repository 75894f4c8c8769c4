package main

// Stand-ins for functions of libraries that call back into the repository. The
// package exists only in the analysis (an overlay); calls of the functions
// below are analysed as calls of their stand-ins.

const (
	modelDir = "x/dexlintmodel"
	pModel   = "defund/" + modelDir
)

var standIns = map[string]string{
	"github.com/cosmos/cosmos-sdk/types/query.FilteredPaginate": "FilteredPaginate",
	"github.com/cosmos/cosmos-sdk/types/query.Paginate":         "Paginate",
}

const modelPaging = `package dexlintmodel

import (
	storetypes "cosmossdk.io/store/types"
	"github.com/cosmos/cosmos-sdk/types/query"
)

type Paging interface {
	Refuse(req *query.PageRequest) error
	Taken(req *query.PageRequest, key []byte) bool
	Hit(req *query.PageRequest, hit bool)
	Page(req *query.PageRequest) *query.PageResponse
}

var P Paging

// FilteredPaginate gives every entry of the store to onResult, any of them to
// be accumulated, until an error.
func FilteredPaginate(store storetypes.KVStore, req *query.PageRequest, onResult func(key, value []byte, accumulate bool) (bool, error)) (*query.PageResponse, error) {
	if err := P.Refuse(req); err != nil {
		return nil, err
	}
	it := storetypes.KVStorePrefixIterator(store, nil)
	defer it.Close()
	for ; it.Valid(); it.Next() {
		hit, err := onResult(it.Key(), it.Value(), P.Taken(req, it.Key()))
		if err != nil {
			return nil, err
		}
		P.Hit(req, hit)
	}
	return P.Page(req), nil
}

// Paginate gives the entries of a page to onResult.
func Paginate(store storetypes.KVStore, req *query.PageRequest, onResult func(key, value []byte) error) (*query.PageResponse, error) {
	if err := P.Refuse(req); err != nil {
		return nil, err
	}
	it := storetypes.KVStorePrefixIterator(store, nil)
	defer it.Close()
	for ; it.Valid(); it.Next() {
		if P.Taken(req, it.Key()) {
			if err := onResult(it.Key(), it.Value()); err != nil {
				return nil, err
			}
		}
		P.Hit(req, true)
	}
	return P.Page(req), nil
}
`

const modelInvariant = `package dexlintmodel

import (
	sdk "github.com/cosmos/cosmos-sdk/types"

	dex "defund/x/dex/module"
)

type registry struct {
	ctx  sdk.Context
	want string
}

type Reports interface {
	Report(module, route, message string, broken bool)
}

var Reporter Reports

// RegisterRoute evaluates the invariant that is asked for.
func (r registry) RegisterRoute(module, route string, inv sdk.Invariant) {
	if route == r.want {
		msg, broken := inv(r.ctx)
		Reporter.Report(module, route, msg, broken)
	}
}

// Invariant is what the crisis module does with an invariant of the module.
func Invariant(want string, am dex.AppModule, ctx sdk.Context) {
	am.RegisterInvariants(registry{ctx, want})
}
`

const modelTogether = `package dexlintmodel

import (
	sdk "github.com/cosmos/cosmos-sdk/types"

	"defund/x/dex/keeper"
)

// AllInvariants is the evaluation of all invariants at once.
func AllInvariants(k keeper.Keeper, ctx sdk.Context) bool {
	_, broken := keeper.AllInvariants(k)(ctx)
	return broken
}
`

// modelFiles are the files of the package, the optional ones last: those that
// do not fit the repository are left out.
var modelFiles = []struct{ name, src string }{{"paging.go", modelPaging}, {"invariant.go", modelInvariant}, {"together.go", modelTogether}}
