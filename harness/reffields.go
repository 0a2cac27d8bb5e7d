package main

// Reference field tables: written down from the AVM specification (v8, plus the
// v9 curve groups); the code under test is never consulted for them.

type refField struct {
	Name    string
	Value   int
	Version uint64
	Itx     uint64 // version for setting it in an inner transaction, 0 = never
	Array   bool
	Type    byte // U or B
}

var refFields = map[string][]refField{
	"txn": {
		{"Sender", 0, 0, 5, false, 'B'},
		{"Fee", 1, 0, 5, false, 'U'},
		{"FirstValid", 2, 0, 0, false, 'U'},
		{"FirstValidTime", 3, 7, 0, false, 'U'},
		{"LastValid", 4, 0, 0, false, 'U'},
		{"Note", 5, 0, 6, false, 'B'},
		{"Lease", 6, 0, 0, false, 'B'},
		{"Receiver", 7, 0, 5, false, 'B'},
		{"Amount", 8, 0, 5, false, 'U'},
		{"CloseRemainderTo", 9, 0, 5, false, 'B'},
		{"VotePK", 10, 0, 6, false, 'B'},
		{"SelectionPK", 11, 0, 6, false, 'B'},
		{"VoteFirst", 12, 0, 6, false, 'U'},
		{"VoteLast", 13, 0, 6, false, 'U'},
		{"VoteKeyDilution", 14, 0, 6, false, 'U'},
		{"Type", 15, 0, 5, false, 'B'},
		{"TypeEnum", 16, 0, 5, false, 'U'},
		{"XferAsset", 17, 0, 5, false, 'U'},
		{"AssetAmount", 18, 0, 5, false, 'U'},
		{"AssetSender", 19, 0, 5, false, 'B'},
		{"AssetReceiver", 20, 0, 5, false, 'B'},
		{"AssetCloseTo", 21, 0, 5, false, 'B'},
		{"GroupIndex", 22, 0, 0, false, 'U'},
		{"TxID", 23, 0, 0, false, 'B'},
		{"ApplicationID", 24, 2, 6, false, 'U'},
		{"OnCompletion", 25, 2, 6, false, 'U'},
		{"ApplicationArgs", 26, 2, 6, true, 'B'},
		{"NumAppArgs", 27, 2, 0, false, 'U'},
		{"Accounts", 28, 2, 6, true, 'B'},
		{"NumAccounts", 29, 2, 0, false, 'U'},
		{"ApprovalProgram", 30, 2, 6, false, 'B'},
		{"ClearStateProgram", 31, 2, 6, false, 'B'},
		{"RekeyTo", 32, 2, 6, false, 'B'},
		{"ConfigAsset", 33, 2, 5, false, 'U'},
		{"ConfigAssetTotal", 34, 2, 5, false, 'U'},
		{"ConfigAssetDecimals", 35, 2, 5, false, 'U'},
		{"ConfigAssetDefaultFrozen", 36, 2, 5, false, 'U'},
		{"ConfigAssetUnitName", 37, 2, 5, false, 'B'},
		{"ConfigAssetName", 38, 2, 5, false, 'B'},
		{"ConfigAssetURL", 39, 2, 5, false, 'B'},
		{"ConfigAssetMetadataHash", 40, 2, 5, false, 'B'},
		{"ConfigAssetManager", 41, 2, 5, false, 'B'},
		{"ConfigAssetReserve", 42, 2, 5, false, 'B'},
		{"ConfigAssetFreeze", 43, 2, 5, false, 'B'},
		{"ConfigAssetClawback", 44, 2, 5, false, 'B'},
		{"FreezeAsset", 45, 2, 5, false, 'U'},
		{"FreezeAssetAccount", 46, 2, 5, false, 'B'},
		{"FreezeAssetFrozen", 47, 2, 5, false, 'U'},
		{"Assets", 48, 3, 6, true, 'U'},
		{"NumAssets", 49, 3, 0, false, 'U'},
		{"Applications", 50, 3, 6, true, 'U'},
		{"NumApplications", 51, 3, 0, false, 'U'},
		{"GlobalNumUint", 52, 3, 6, false, 'U'},
		{"GlobalNumByteSlice", 53, 3, 6, false, 'U'},
		{"LocalNumUint", 54, 3, 6, false, 'U'},
		{"LocalNumByteSlice", 55, 3, 6, false, 'U'},
		{"ExtraProgramPages", 56, 4, 6, false, 'U'},
		{"Nonparticipation", 57, 5, 6, false, 'U'},
		{"Logs", 58, 5, 0, true, 'B'},
		{"NumLogs", 59, 5, 0, false, 'U'},
		{"CreatedAssetID", 60, 5, 0, false, 'U'},
		{"CreatedApplicationID", 61, 5, 0, false, 'U'},
		{"LastLog", 62, 6, 0, false, 'B'},
		{"StateProofPK", 63, 6, 6, false, 'B'},
		{"ApprovalProgramPages", 64, 7, 7, true, 'B'},
		{"NumApprovalProgramPages", 65, 7, 0, false, 'U'},
		{"ClearStateProgramPages", 66, 7, 7, true, 'B'},
		{"NumClearStateProgramPages", 67, 7, 0, false, 'U'},
	},
	"global": {
		{"MinTxnFee", 0, 0, 0, false, 'U'},
		{"MinBalance", 1, 0, 0, false, 'U'},
		{"MaxTxnLife", 2, 0, 0, false, 'U'},
		{"ZeroAddress", 3, 0, 0, false, 'B'},
		{"GroupSize", 4, 0, 0, false, 'U'},
		{"LogicSigVersion", 5, 2, 0, false, 'U'},
		{"Round", 6, 2, 0, false, 'U'},
		{"LatestTimestamp", 7, 2, 0, false, 'U'},
		{"CurrentApplicationID", 8, 2, 0, false, 'U'},
		{"CreatorAddress", 9, 3, 0, false, 'B'},
		{"CurrentApplicationAddress", 10, 5, 0, false, 'B'},
		{"GroupID", 11, 5, 0, false, 'B'},
		{"OpcodeBudget", 12, 6, 0, false, 'U'},
		{"CallerApplicationID", 13, 6, 0, false, 'U'},
		{"CallerApplicationAddress", 14, 6, 0, false, 'B'},
	},
	"asset_holding": {
		{"AssetBalance", 0, 2, 0, false, 'U'},
		{"AssetFrozen", 1, 2, 0, false, 'U'},
	},
	"asset_params": {
		{"AssetTotal", 0, 2, 0, false, 'U'},
		{"AssetDecimals", 1, 2, 0, false, 'U'},
		{"AssetDefaultFrozen", 2, 2, 0, false, 'U'},
		{"AssetUnitName", 3, 2, 0, false, 'B'},
		{"AssetName", 4, 2, 0, false, 'B'},
		{"AssetURL", 5, 2, 0, false, 'B'},
		{"AssetMetadataHash", 6, 2, 0, false, 'B'},
		{"AssetManager", 7, 2, 0, false, 'B'},
		{"AssetReserve", 8, 2, 0, false, 'B'},
		{"AssetFreeze", 9, 2, 0, false, 'B'},
		{"AssetClawback", 10, 2, 0, false, 'B'},
		{"AssetCreator", 11, 5, 0, false, 'B'},
	},
	"app_params": {
		{"AppApprovalProgram", 0, 5, 0, false, 'B'},
		{"AppClearStateProgram", 1, 5, 0, false, 'B'},
		{"AppGlobalNumUint", 2, 5, 0, false, 'U'},
		{"AppGlobalNumByteSlice", 3, 5, 0, false, 'U'},
		{"AppLocalNumUint", 4, 5, 0, false, 'U'},
		{"AppLocalNumByteSlice", 5, 5, 0, false, 'U'},
		{"AppExtraProgramPages", 6, 5, 0, false, 'U'},
		{"AppCreator", 7, 5, 0, false, 'B'},
		{"AppAddress", 8, 5, 0, false, 'B'},
	},
	"acct_params": {
		{"AcctBalance", 0, 6, 0, false, 'U'},
		{"AcctMinBalance", 1, 6, 0, false, 'U'},
		{"AcctAuthAddr", 2, 6, 0, false, 'B'},
		{"AcctTotalNumUint", 3, 8, 0, false, 'U'},
		{"AcctTotalNumByteSlice", 4, 8, 0, false, 'U'},
		{"AcctTotalExtraAppPages", 5, 8, 0, false, 'U'},
		{"AcctTotalAppsCreated", 6, 8, 0, false, 'U'},
		{"AcctTotalAppsOptedIn", 7, 8, 0, false, 'U'},
		{"AcctTotalAssetsCreated", 8, 8, 0, false, 'U'},
		{"AcctTotalAssets", 9, 8, 0, false, 'U'},
		{"AcctTotalBoxes", 10, 8, 0, false, 'U'},
		{"AcctTotalBoxBytes", 11, 8, 0, false, 'U'},
	},
	"block": {
		{"BlkSeed", 0, 7, 0, false, 'B'},
		{"BlkTimestamp", 1, 7, 0, false, 'U'},
	},
	"json": {
		{"JSONString", 0, 7, 0, false, 'B'},
		{"JSONUint64", 1, 7, 0, false, 'U'},
		{"JSONObject", 2, 7, 0, false, 'B'},
	},
	"ecdsa": {
		{"Secp256k1", 0, 5, 0, false, 'B'},
		{"Secp256r1", 1, 7, 0, false, 'B'},
	},
	"base64": {
		{"URLEncoding", 0, 6, 0, false, 'B'},
		{"StdEncoding", 1, 6, 0, false, 'B'},
	},
	"vrf": {
		{"VrfAlgorand", 0, 7, 0, false, 'B'},
	},
	"ec": {
		{"BN254_G1", 0, 9, 0, false, 'B'},
		{"BN254_G2", 1, 9, 0, false, 'B'},
		{"BLS12_381_G1", 2, 9, 0, false, 'B'},
		{"BLS12_381_G2", 3, 9, 0, false, 'B'},
	},
}
