package main

// The notes of the AVM specification on the fields of reffields.go.

var refNotes = map[string]map[string]string{
	"acct_params": {
		"AcctBalance":            "Account balance in microalgos",
		"AcctMinBalance":         "Minimum required balance for account, in microalgos",
		"AcctAuthAddr":           "Address the account is rekeyed to.",
		"AcctTotalNumUint":       "The total number of uint64 values allocated by this account in Global and Local States.",
		"AcctTotalNumByteSlice":  "The total number of byte array values allocated by this account in Global and Local States.",
		"AcctTotalExtraAppPages": "The number of extra app code pages used by this account.",
		"AcctTotalAppsCreated":   "The number of existing apps created by this account.",
		"AcctTotalAppsOptedIn":   "The number of apps this account is opted into.",
		"AcctTotalAssetsCreated": "The number of existing ASAs created by this account.",
		"AcctTotalAssets":        "The numbers of ASAs held by this account (including ASAs this account created).",
		"AcctTotalBoxes":         "The number of existing boxes created by this account's app.",
		"AcctTotalBoxBytes":      "The total number of bytes used by this account's app's box keys and values.",
	},
	"app_params": {
		"AppApprovalProgram":    "Bytecode of Approval Program",
		"AppClearStateProgram":  "Bytecode of Clear State Program",
		"AppGlobalNumUint":      "Number of uint64 values allowed in Global State",
		"AppGlobalNumByteSlice": "Number of byte array values allowed in Global State",
		"AppLocalNumUint":       "Number of uint64 values allowed in Local State",
		"AppLocalNumByteSlice":  "Number of byte array values allowed in Local State",
		"AppExtraProgramPages":  "Number of Extra Program Pages of code space",
		"AppCreator":            "Creator address",
		"AppAddress":            "Address for which this application has authority",
	},
	"asset_holding": {
		"AssetBalance": "Amount of the asset unit held by this account",
		"AssetFrozen":  "Is the asset frozen or not",
	},
	"asset_params": {
		"AssetTotal":         "Total number of units of this asset",
		"AssetDecimals":      "See AssetParams.Decimals",
		"AssetDefaultFrozen": "Frozen by default or not",
		"AssetUnitName":      "Asset unit name",
		"AssetName":          "Asset name",
		"AssetURL":           "URL with additional info about the asset",
		"AssetMetadataHash":  "Arbitrary commitment",
		"AssetManager":       "Manager address",
		"AssetReserve":       "Reserve address",
		"AssetFreeze":        "Freeze address",
		"AssetClawback":      "Clawback address",
		"AssetCreator":       "Creator address",
	},
	"ec": {
		"BN254_G1":     "G1 of the BN254 curve. Points encoded as 32 byte X following by 32 byte Y",
		"BN254_G2":     "G2 of the BN254 curve. Points encoded as 64 byte X following by 64 byte Y",
		"BLS12_381_G1": "G1 of the BLS 12-381 curve. Points encoded as 48 byte X following by 48 byte Y",
		"BLS12_381_G2": "G2 of the BLS 12-381 curve. Points encoded as 96 byte X following by 48 byte Y",
	},
	"ecdsa": {
		"Secp256k1": "secp256k1 curve, used in Bitcoin",
		"Secp256r1": "secp256r1 curve, NIST standard",
	},
	"global": {
		"MinTxnFee":                 "microalgos",
		"MinBalance":                "microalgos",
		"MaxTxnLife":                "rounds",
		"ZeroAddress":               "32 byte address of all zero bytes",
		"GroupSize":                 "Number of transactions in this atomic transaction group. At least 1",
		"LogicSigVersion":           "Maximum supported version",
		"Round":                     "Current round number. Application mode only.",
		"LatestTimestamp":           "Last confirmed block UNIX timestamp. Fails if negative. Application mode only.",
		"CurrentApplicationID":      "ID of current application executing. Application mode only.",
		"CreatorAddress":            "Address of the creator of the current application. Application mode only.",
		"CurrentApplicationAddress": "Address that the current application controls. Application mode only.",
		"GroupID":                   "ID of the transaction group. 32 zero bytes if the transaction is not part of a group.",
		"OpcodeBudget":              "The remaining cost that can be spent by opcodes in this program.",
		"CallerApplicationID":       "The application ID of the application that called this application. 0 if this application is at the top-level. Application mode only.",
		"CallerApplicationAddress":  "The application address of the application that called this application. ZeroAddress if this application is at the top-level. Application mode only.",
	},
	"txn": {
		"Sender":                    "32 byte address",
		"Fee":                       "microalgos",
		"FirstValid":                "round number",
		"FirstValidTime":            "UNIX timestamp of block before txn.FirstValid. Fails if negative",
		"LastValid":                 "round number",
		"Note":                      "Any data up to 1024 bytes",
		"Lease":                     "32 byte lease value",
		"Receiver":                  "32 byte address",
		"Amount":                    "microalgos",
		"CloseRemainderTo":          "32 byte address",
		"VotePK":                    "32 byte address",
		"SelectionPK":               "32 byte address",
		"VoteFirst":                 "The first round that the participation key is valid.",
		"VoteLast":                  "The last round that the participation key is valid.",
		"VoteKeyDilution":           "Dilution for the 2-level participation key",
		"Type":                      "Transaction type as bytes",
		"TypeEnum":                  "Transaction type as integer",
		"XferAsset":                 "Asset ID",
		"AssetAmount":               "value in Asset's units",
		"AssetSender":               "32 byte address. Source of assets if Sender is the Asset's Clawback address.",
		"AssetReceiver":             "32 byte address",
		"AssetCloseTo":              "32 byte address",
		"GroupIndex":                "Position of this transaction within an atomic transaction group. A stand-alone transaction is implicitly element 0 in a group of 1",
		"TxID":                      "The computed ID for this transaction. 32 bytes.",
		"ApplicationID":             "ApplicationID from ApplicationCall transaction",
		"OnCompletion":              "ApplicationCall transaction on completion action",
		"ApplicationArgs":           "Arguments passed to the application in the ApplicationCall transaction",
		"NumAppArgs":                "Number of ApplicationArgs",
		"Accounts":                  "Accounts listed in the ApplicationCall transaction",
		"NumAccounts":               "Number of Accounts",
		"ApprovalProgram":           "Approval program",
		"ClearStateProgram":         "Clear state program",
		"RekeyTo":                   "32 byte Sender's new AuthAddr",
		"ConfigAsset":               "Asset ID in asset config transaction",
		"ConfigAssetTotal":          "Total number of units of this asset created",
		"ConfigAssetDecimals":       "Number of digits to display after the decimal place when displaying the asset",
		"ConfigAssetDefaultFrozen":  "Whether the asset's slots are frozen by default or not, 0 or 1",
		"ConfigAssetUnitName":       "Unit name of the asset",
		"ConfigAssetName":           "The asset name",
		"ConfigAssetURL":            "URL",
		"ConfigAssetMetadataHash":   "32 byte commitment to unspecified asset metadata",
		"ConfigAssetManager":        "32 byte address",
		"ConfigAssetReserve":        "32 byte address",
		"ConfigAssetFreeze":         "32 byte address",
		"ConfigAssetClawback":       "32 byte address",
		"FreezeAsset":               "Asset ID being frozen or un-frozen",
		"FreezeAssetAccount":        "32 byte address of the account whose asset slot is being frozen or un-frozen",
		"FreezeAssetFrozen":         "The new frozen value, 0 or 1",
		"Assets":                    "Foreign Assets listed in the ApplicationCall transaction",
		"NumAssets":                 "Number of Assets",
		"Applications":              "Foreign Apps listed in the ApplicationCall transaction",
		"NumApplications":           "Number of Applications",
		"GlobalNumUint":             "Number of global state integers in ApplicationCall",
		"GlobalNumByteSlice":        "Number of global state byteslices in ApplicationCall",
		"LocalNumUint":              "Number of local state integers in ApplicationCall",
		"LocalNumByteSlice":         "Number of local state byteslices in ApplicationCall",
		"ExtraProgramPages":         "Number of additional pages for each of the application's approval and clear state programs. An ExtraProgramPages of 1 means 2048 more total bytes, or 1024 for each program.",
		"Nonparticipation":          "Marks an account nonparticipating for rewards",
		"Logs":                      "Log messages emitted by an application call (only with `itxn` in v5). Application mode only",
		"NumLogs":                   "Number of Logs (only with `itxn` in v5). Application mode only",
		"CreatedAssetID":            "Asset ID allocated by the creation of an ASA (only with `itxn` in v5). Application mode only",
		"CreatedApplicationID":      "ApplicationID allocated by the creation of an application (only with `itxn` in v5). Application mode only",
		"LastLog":                   "The last message emitted. Empty bytes if none were emitted. Application mode only",
		"StateProofPK":              "64 byte state proof public key",
		"ApprovalProgramPages":      "Approval Program as an array of pages",
		"NumApprovalProgramPages":   "Number of Approval Program pages",
		"ClearStateProgramPages":    "ClearState Program as an array of pages",
		"NumClearStateProgramPages": "Number of ClearState Program pages",
	},
}
