package main

// Reference opcode table: name, version from which it is available to
// applications and to logic signatures (0 = never), immediates, and the stack
// types it pops and pushes (top of the stack last), written down from the AVM
// specification (v8, plus the v9 curve opcodes).
//
// Immediates: u8, i8, u64, int (u64 or a named constant), bytes, label, addr,
// sig, or a field group of reffields.go; suffix * = any number, ? = optional.

type refOp struct {
	Name     string
	App, Sig uint64
	Imms     string
	Args     string
	Rets     string
}

var refOps = []refOp{
	{"!", 1, 1, "", "U", "U"},
	{"!=", 1, 1, "", "..", "U"},
	{"%", 1, 1, "", "UU", "U"},
	{"&", 1, 1, "", "UU", "U"},
	{"&&", 1, 1, "", "UU", "U"},
	{"*", 1, 1, "", "UU", "U"},
	{"+", 1, 1, "", "UU", "U"},
	{"-", 1, 1, "", "UU", "U"},
	{"/", 1, 1, "", "UU", "U"},
	{"<", 1, 1, "", "UU", "U"},
	{"<=", 1, 1, "", "UU", "U"},
	{"==", 1, 1, "", "..", "U"},
	{">", 1, 1, "", "UU", "U"},
	{">=", 1, 1, "", "UU", "U"},
	{"^", 1, 1, "", "UU", "U"},
	{"acct_params_get", 6, 0, "acct_params", ".", ".U"},
	{"addr", 1, 1, "addr", "", "B"},
	{"addw", 2, 2, "", "UU", "UU"},
	{"app_global_del", 2, 0, "", "B", ""},
	{"app_global_get", 2, 0, "", "B", "."},
	{"app_global_get_ex", 2, 0, "", "UB", ".U"},
	{"app_global_put", 2, 0, "", "B.", ""},
	{"app_local_del", 2, 0, "", ".B", ""},
	{"app_local_get", 2, 0, "", ".B", "."},
	{"app_local_get_ex", 2, 0, "", ".UB", ".U"},
	{"app_local_put", 2, 0, "", ".B.", ""},
	{"app_opted_in", 2, 0, "", ".U", "U"},
	{"app_params_get", 5, 0, "app_params", "U", ".U"},
	{"arg", 0, 1, "u8", "", "B"},
	{"arg_0", 0, 1, "", "", "B"},
	{"arg_1", 0, 1, "", "", "B"},
	{"arg_2", 0, 1, "", "", "B"},
	{"arg_3", 0, 1, "", "", "B"},
	{"args", 0, 5, "", "U", "B"},
	{"assert", 3, 3, "", "U", ""},
	{"asset_holding_get", 2, 0, "asset_holding", ".U", ".U"},
	{"asset_params_get", 2, 0, "asset_params", "U", ".U"},
	{"b", 2, 2, "label", "", ""},
	{"b!=", 4, 4, "", "BB", "U"},
	{"b%", 4, 4, "", "BB", "B"},
	{"b&", 4, 4, "", "BB", "B"},
	{"b*", 4, 4, "", "BB", "B"},
	{"b+", 4, 4, "", "BB", "B"},
	{"b-", 4, 4, "", "BB", "B"},
	{"b/", 4, 4, "", "BB", "B"},
	{"b<", 4, 4, "", "BB", "U"},
	{"b<=", 4, 4, "", "BB", "U"},
	{"b==", 4, 4, "", "BB", "U"},
	{"b>", 4, 4, "", "BB", "U"},
	{"b>=", 4, 4, "", "BB", "U"},
	{"b^", 4, 4, "", "BB", "B"},
	{"balance", 2, 0, "", ".", "U"},
	{"base64_decode", 7, 7, "base64", "B", "B"},
	{"bitlen", 4, 4, "", ".", "U"},
	{"block", 7, 7, "block", "U", "."},
	{"bnz", 1, 1, "label", "U", ""},
	{"box_create", 8, 0, "", "BU", "U"},
	{"box_del", 8, 0, "", "B", "U"},
	{"box_extract", 8, 0, "", "BUU", "B"},
	{"box_get", 8, 0, "", "B", "BU"},
	{"box_len", 8, 0, "", "B", "UU"},
	{"box_put", 8, 0, "", "BB", ""},
	{"box_replace", 8, 0, "", "BUB", ""},
	{"bsqrt", 6, 6, "", "B", "B"},
	{"btoi", 1, 1, "", "B", "U"},
	{"bury", 8, 8, "u8", ".", ""},
	{"byte", 1, 1, "bytes", "", "B"},
	{"bytec", 1, 1, "u8", "", "B"},
	{"bytec_0", 1, 1, "", "", "B"},
	{"bytec_1", 1, 1, "", "", "B"},
	{"bytec_2", 1, 1, "", "", "B"},
	{"bytec_3", 1, 1, "", "", "B"},
	{"bytecblock", 1, 1, "bytes*", "", ""},
	{"bz", 2, 2, "label", "U", ""},
	{"bzero", 4, 4, "", "U", "B"},
	{"b|", 4, 4, "", "BB", "B"},
	{"b~", 4, 4, "", "B", "B"},
	{"callsub", 4, 4, "label", "", ""},
	{"concat", 2, 2, "", "BB", "B"},
	{"cover", 5, 5, "u8", ".", "."},
	{"dig", 3, 3, "u8", ".", ".."},
	{"divmodw", 4, 4, "", "UUUU", "UUUU"},
	{"divw", 6, 6, "", "UUU", "U"},
	{"dup", 1, 1, "", ".", ".."},
	{"dup2", 2, 2, "", "..", "...."},
	{"dupn", 8, 8, "u8", ".", ""},
	{"ec_add", 9, 9, "ec", "BB", "B"},
	{"ec_map_to", 9, 9, "ec", "B", "B"},
	{"ec_multi_exp", 9, 9, "ec", "BB", "B"},
	{"ec_pairing_check", 9, 9, "ec", "BB", "U"},
	{"ec_scalar_mul", 9, 9, "ec", "BB", "B"},
	{"ec_subgroup_check", 9, 9, "ec", "B", "U"},
	{"ecdsa_pk_decompress", 5, 5, "ecdsa", "B", "BB"},
	{"ecdsa_pk_recover", 5, 5, "ecdsa", "BUBB", "BB"},
	{"ecdsa_verify", 5, 5, "ecdsa", "BBBBB", "U"},
	{"ed25519verify", 5, 1, "", "BBB", "U"},
	{"ed25519verify_bare", 7, 7, "", "BBB", "U"},
	{"err", 1, 1, "", "", ""},
	{"exp", 4, 4, "", "UU", "U"},
	{"expw", 4, 4, "", "UU", "UU"},
	{"extract", 5, 5, "u8? u8?", "B", "B"},
	{"extract3", 5, 5, "", "BUU", "B"},
	{"extract_uint16", 5, 5, "", "BU", "U"},
	{"extract_uint32", 5, 5, "", "BU", "U"},
	{"extract_uint64", 5, 5, "", "BU", "U"},
	{"frame_bury", 8, 8, "i8", ".", ""},
	{"frame_dig", 8, 8, "i8", "", "."},
	{"gaid", 4, 0, "u8", "", "U"},
	{"gaids", 4, 0, "", "U", "U"},
	{"getbit", 3, 3, "", ".U", "U"},
	{"getbyte", 3, 3, "", "BU", "U"},
	{"gitxn", 6, 0, "u8 txn", "", "."},
	{"gitxna", 6, 0, "u8 txna u8", "", "."},
	{"gitxnas", 6, 0, "u8 txna", "U", "."},
	{"gload", 4, 0, "u8 u8", "", "."},
	{"gloads", 4, 0, "u8", "U", "."},
	{"gloadss", 6, 0, "", "UU", "."},
	{"global", 1, 1, "global", "", "."},
	{"gtxn", 1, 1, "u8 txn u8?", "", "."},
	{"gtxna", 2, 2, "u8 txna u8", "", "."},
	{"gtxnas", 5, 5, "u8 txna", "U", "."},
	{"gtxns", 3, 3, "txn u8?", "U", "."},
	{"gtxnsa", 3, 3, "txna u8", "U", "."},
	{"gtxnsas", 5, 5, "txna", "UU", "."},
	{"int", 1, 1, "int", "", "U"},
	{"intc", 1, 1, "u8", "", "U"},
	{"intc_0", 1, 1, "", "", "U"},
	{"intc_1", 1, 1, "", "", "U"},
	{"intc_2", 1, 1, "", "", "U"},
	{"intc_3", 1, 1, "", "", "U"},
	{"intcblock", 1, 1, "u64*", "", ""},
	{"itob", 1, 1, "", "U", "B"},
	{"itxn", 5, 0, "txn", "", "."},
	{"itxn_begin", 5, 0, "", "", ""},
	{"itxn_field", 5, 0, "itxn", ".", ""},
	{"itxn_next", 6, 0, "", "", ""},
	{"itxn_submit", 5, 0, "", "", ""},
	{"itxna", 5, 0, "txna u8", "", "."},
	{"itxnas", 6, 0, "txna", "U", "."},
	{"json_ref", 7, 7, "json", "BB", "."},
	{"keccak256", 1, 1, "", "B", "B"},
	{"len", 1, 1, "", "B", "U"},
	{"load", 1, 1, "u8", "", "."},
	{"loads", 5, 5, "", "U", "."},
	{"log", 5, 0, "", "B", ""},
	{"match", 8, 8, "label*", "", ""},
	{"method", 1, 1, "sig", "", "B"},
	{"min_balance", 3, 0, "", ".", "U"},
	{"mulw", 1, 1, "", "UU", "UU"},
	{"pop", 1, 1, "", ".", ""},
	{"popn", 8, 8, "u8", "", ""},
	{"proto", 8, 8, "u8 u8", "", ""},
	{"pushbytes", 3, 3, "bytes", "", "B"},
	{"pushbytess", 8, 8, "bytes*", "", ""},
	{"pushint", 3, 3, "u64", "", "U"},
	{"pushints", 8, 8, "u64*", "", ""},
	{"replace", 7, 7, "u8?", "", ""},
	{"replace2", 7, 7, "u8", "BB", "B"},
	{"replace3", 7, 7, "", "BUB", "B"},
	{"retsub", 4, 4, "", "", ""},
	{"return", 2, 2, "", "U", ""},
	{"select", 3, 3, "", "..U", "."},
	{"setbit", 3, 3, "", ".UU", "."},
	{"setbyte", 3, 3, "", "BUU", "B"},
	{"sha256", 1, 1, "", "B", "B"},
	{"sha3_256", 7, 7, "", "B", "B"},
	{"sha512_256", 1, 1, "", "B", "B"},
	{"shl", 4, 4, "", "UU", "U"},
	{"shr", 4, 4, "", "UU", "U"},
	{"sqrt", 4, 4, "", "U", "U"},
	{"store", 1, 1, "u8", ".", ""},
	{"stores", 5, 5, "", "U.", ""},
	{"substring", 2, 2, "u8 u8", "B", "B"},
	{"substring3", 2, 2, "", "BUU", "B"},
	{"swap", 3, 3, "", "..", ".."},
	{"switch", 8, 8, "label*", "U", ""},
	{"txn", 1, 1, "txn u8?", "", "."},
	{"txna", 2, 2, "txna u8", "", "."},
	{"txnas", 5, 5, "txna", "U", "."},
	{"uncover", 5, 5, "u8", ".", "."},
	{"vrf_verify", 7, 7, "vrf", "BBB", "BU"},
	{"|", 1, 1, "", "UU", "U"},
	{"||", 1, 1, "", "UU", "U"},
	{"~", 1, 1, "", "U", "U"},
}
