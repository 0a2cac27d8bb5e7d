package main

import "github.com/dragmz/teal"

// the instructions without values, by the name the builder API gives them
var builderOps = []struct {
	E teal.Expr
	S string
}{
	{teal.Err, "err"},
	{teal.Sha3256, "sha3_256"},
	{teal.Sha256, "sha256"},
	{teal.Keccak256, "keccak256"},
	{teal.Sha512256, "sha512_256"},
	{teal.ED25519Verify, "ed25519verify"},
	{teal.PlusOp, "+"},
	{teal.MinusOp, "-"},
	{teal.Div, "/"},
	{teal.Mul, "*"},
	{teal.Lt, "<"},
	{teal.Gt, ">"},
	{teal.Le, "<="},
	{teal.Ge, ">="},
	{teal.And, "&&"},
	{teal.Or, "||"},
	{teal.Eq, "=="},
	{teal.Neq, "!="},
	{teal.Not, "!"},
	{teal.Len, "len"},
	{teal.Itob, "itob"},
	{teal.Btoi, "btoi"},
	{teal.Modulo, "%"},
	{teal.BitOr, "|"},
	{teal.BitAnd, "&"},
	{teal.BitXor, "^"},
	{teal.BitNot, "~"},
	{teal.Mulw, "mulw"},
	{teal.Addw, "addw"},
	{teal.DivModw, "divmodw"},
	{teal.Intc0, "intc_0"},
	{teal.Intc1, "intc_1"},
	{teal.Intc2, "intc_2"},
	{teal.Intc3, "intc_3"},
	{teal.Bytec0, "bytec_0"},
	{teal.Bytec1, "bytec_1"},
	{teal.Bytec2, "bytec_2"},
	{teal.Bytec3, "bytec_3"},
	{teal.Arg0, "arg_0"},
	{teal.Arg1, "arg_1"},
	{teal.Arg2, "arg_2"},
	{teal.Arg3, "arg_3"},
	{teal.BoxGet, "box_get"},
	{teal.BoxPut, "box_put"},
	{teal.BoxDel, "box_del"},
	{teal.BoxLen, "box_len"},
	{teal.BoxCreate, "box_create"},
	{teal.BoxReplace, "box_replace"},
	{teal.BoxExtract, "box_extract"},
	{teal.AppLocalGet, "app_local_get"},
	{teal.AppLocalPut, "app_local_put"},
	{teal.AppGlobalPut, "app_global_put"},
	{teal.AppGlobalGet, "app_global_get"},
	{teal.AppGlobalGetEx, "app_global_get_ex"},
	{teal.AppLocalGetEx, "app_local_get_ex"},
	{teal.AppLocalDel, "app_local_del"},
	{teal.RetSub, "retsub"},
	{teal.Return, "return"},
	{teal.Assert, "assert"},
	{teal.Dup, "dup"},
	{teal.Extract16Bits, "extract_uint16"},
	{teal.Extract32Bits, "extract_uint32"},
	{teal.Extract64Bits, "extract_uint64"},
	{teal.Replace3, "replace3"},
	{teal.Ed25519VerifyBare, "ed25519verify_bare"},
	{teal.BitLen, "bitlen"},
	{teal.Expw, "expw"},
	{teal.Args, "args"},
	{teal.Gloadss, "gloadss"},
	{teal.SetByte, "setbyte"},
	{teal.Concat, "concat"},
	{teal.ItxnBegin, "itxn_begin"},
	{teal.ItxnSubmit, "itxn_submit"},
	{teal.Pop, "pop"},
	{teal.Swap, "swap"},
	{teal.Sqrt, "sqrt"},
	{teal.Balance, "balance"},
	{teal.Exp, "exp"},
	{teal.Log, "log"},
	{teal.Extract3, "extract3"},
	{teal.ExtractUint64, "extract_uint64"},
	{teal.ItxnNext, "itxn_next"},
	{teal.MinBalanceOp, "min_balance"},
	{teal.Bzero, "bzero"},
	{teal.GetByte, "getbyte"},
	{teal.Substring3, "substring3"},
	{teal.ShiftLeft, "shl"},
	{teal.ShiftRight, "shr"},
	{teal.GetBit, "getbit"},
	{teal.SetBit, "setbit"},
	{teal.BytesMinus, "b-"},
	{teal.BytesMul, "b*"},
	{teal.BytesDiv, "b/"},
	{teal.BytesPlus, "b+"},
	{teal.Gaids, "gaids"},
	{teal.Loads, "loads"},
	{teal.Stores, "stores"},
	{teal.Dup2, "dup2"},
	{teal.Divw, "divw"},
	{teal.Select, "select"},
	{teal.Bgteq, "b>="},
	{teal.BytesGt, "b>"},
	{teal.BytesLe, "b<="},
	{teal.BytesGe, "b>="},
	{teal.BytesEq, "b=="},
	{teal.BytesNeq, "b!="},
	{teal.BytesModulo, "b%"},
	{teal.BytesBitOr, "b|"},
	{teal.BytesBitAnd, "b&"},
	{teal.Bsqrt, "bsqrt"},
	{teal.AppGlobalDel, "app_global_del"},
	{teal.BytesLt, "b<"},
	{teal.Band, "b&"},
	{teal.BytesBitXor, "b^"},
	{teal.BytesBitNot, "b~"},
	{teal.BytesZero, "bzero"},
	{teal.AppOptedIn, "app_opted_in"},
}

// the field constants, by the name of the field they stand for
var builderTxnFields = []struct {
	F teal.TxnField
	S string
}{
	{teal.Sender, "Sender"},
	{teal.Fee, "Fee"},
	{teal.FirstValid, "FirstValid"},
	{teal.FirstValidTime, "FirstValidTime"},
	{teal.LastValid, "LastValid"},
	{teal.Note, "Note"},
	{teal.Lease, "Lease"},
	{teal.Receiver, "Receiver"},
	{teal.Amount, "Amount"},
	{teal.CloseRemainderTo, "CloseRemainderTo"},
	{teal.VotePK, "VotePK"},
	{teal.SelectionPK, "SelectionPK"},
	{teal.VoteFirst, "VoteFirst"},
	{teal.VoteLast, "VoteLast"},
	{teal.VoteKeyDilution, "VoteKeyDilution"},
	{teal.Type, "Type"},
	{teal.TypeEnum, "TypeEnum"},
	{teal.XferAsset, "XferAsset"},
	{teal.AssetAmount, "AssetAmount"},
	{teal.AssetSender, "AssetSender"},
	{teal.AssetReceiver, "AssetReceiver"},
	{teal.AssetCloseTo, "AssetCloseTo"},
	{teal.GroupIndex, "GroupIndex"},
	{teal.TxID, "TxID"},
	{teal.ApplicationID, "ApplicationID"},
	{teal.OnCompletion, "OnCompletion"},
	{teal.ApplicationArgs, "ApplicationArgs"},
	{teal.NumAppArgs, "NumAppArgs"},
	{teal.Accounts, "Accounts"},
	{teal.NumAccounts, "NumAccounts"},
	{teal.ApprovalProgram, "ApprovalProgram"},
	{teal.ClearStateProgram, "ClearStateProgram"},
	{teal.RekeyTo, "RekeyTo"},
	{teal.ConfigAsset, "ConfigAsset"},
	{teal.ConfigAssetTotal, "ConfigAssetTotal"},
	{teal.ConfigAssetDecimals, "ConfigAssetDecimals"},
	{teal.ConfigAssetDefaultFrozen, "ConfigAssetDefaultFrozen"},
	{teal.ConfigAssetUnitName, "ConfigAssetUnitName"},
	{teal.ConfigAssetName, "ConfigAssetName"},
	{teal.ConfigAssetURL, "ConfigAssetURL"},
	{teal.ConfigAssetMetadataHash, "ConfigAssetMetadataHash"},
	{teal.ConfigAssetManager, "ConfigAssetManager"},
	{teal.ConfigAssetReserve, "ConfigAssetReserve"},
	{teal.ConfigAssetFreeze, "ConfigAssetFreeze"},
	{teal.ConfigAssetClawback, "ConfigAssetClawback"},
	{teal.FreezeAsset, "FreezeAsset"},
	{teal.FreezeAssetAccount, "FreezeAssetAccount"},
	{teal.FreezeAssetFrozen, "FreezeAssetFrozen"},
	{teal.Assets, "Assets"},
	{teal.NumAssets, "NumAssets"},
	{teal.Applications, "Applications"},
	{teal.NumApplications, "NumApplications"},
	{teal.GlobalNumUint, "GlobalNumUint"},
	{teal.GlobalNumByteSlice, "GlobalNumByteSlice"},
	{teal.LocalNumUint, "LocalNumUint"},
	{teal.LocalNumByteSlice, "LocalNumByteSlice"},
	{teal.ExtraProgramPages, "ExtraProgramPages"},
	{teal.Nonparticipation, "Nonparticipation"},
	{teal.Logs, "Logs"},
	{teal.NumLogs, "NumLogs"},
	{teal.CreatedAssetID, "CreatedAssetID"},
	{teal.CreatedApplicationID, "CreatedApplicationID"},
	{teal.LastLog, "LastLog"},
	{teal.StateProofPK, "StateProofPK"},
	{teal.ApprovalProgramPages, "ApprovalProgramPages"},
	{teal.NumApprovalProgramPages, "NumApprovalProgramPages"},
	{teal.ClearStateProgramPages, "ClearStateProgramPages"},
	{teal.NumClearStateProgramPages, "NumClearStateProgramPages"},
}

var builderGlobalFields = []struct {
	F teal.GlobalField
	S string
}{
	{teal.MinTxnFee, "MinTxnFee"},
	{teal.MinBalance, "MinBalance"},
	{teal.MaxTxnLife, "MaxTxnLife"},
	{teal.ZeroAddress, "ZeroAddress"},
	{teal.GroupSize, "GroupSize"},
	{teal.LogicSigVersion, "LogicSigVersion"},
	{teal.Round, "Round"},
	{teal.LatestTimestamp, "LatestTimestamp"},
	{teal.CurrentApplicationID, "CurrentApplicationID"},
	{teal.CreatorAddress, "CreatorAddress"},
	{teal.CurrentApplicationAddress, "CurrentApplicationAddress"},
	{teal.GroupID, "GroupID"},
	{teal.OpcodeBudget, "OpcodeBudget"},
	{teal.CallerApplicationID, "CallerApplicationID"},
	{teal.CallerApplicationAddress, "CallerApplicationAddress"},
	{teal.GlobalMinTxnFee, "MinTxnFee"},
	{teal.GlobalMinBalance, "MinBalance"},
	{teal.GlobalMaxTxnLife, "MaxTxnLife"},
	{teal.GlobalZeroAddress, "ZeroAddress"},
	{teal.GlobalGroupSize, "GroupSize"},
	{teal.GlobalLogicSigVersion, "LogicSigVersion"},
	{teal.GlobalRound, "Round"},
	{teal.GlobalLatestTimestamp, "LatestTimestamp"},
	{teal.GlobalCurrentApplicationID, "CurrentApplicationID"},
	{teal.GlobalCreatorAddress, "CreatorAddress"},
	{teal.GlobalCurrentApplicationAddress, "CurrentApplicationAddress"},
	{teal.GlobalGroupID, "GroupID"},
	{teal.GlobalOpcodeBudget, "OpcodeBudget"},
	{teal.GlobalCallerApplicationID, "CallerApplicationID"},
	{teal.GlobalCallerApplicationAddress, "CallerApplicationAddress"},
}

var builderNumbers = []struct {
	V uint64
	W uint64
}{
	{teal.TypeEnumUnknown, 0},
	{teal.TypeEnumPay, 1},
	{teal.TypeEnumKeyReg, 2},
	{teal.TypeEnumAcfg, 3},
	{teal.TypeEnumAxfer, 4},
	{teal.TypeEnumAfrz, 5},
	{teal.TypeEnumAppl, 6},
	{uint64(teal.NoOp), 0},
	{uint64(teal.OptIn), 1},
	{uint64(teal.CloseOut), 2},
	{uint64(teal.ClearState), 3},
	{uint64(teal.UpdateApplication), 4},
	{uint64(teal.DeleteApplication), 5},
}

// instructions with a field, built from the constant of each field
var builderFieldOps = []struct {
	E teal.Expr
	S string
}{
	{&teal.AssetParamsGetExpr{Field: teal.AssetTotal}, "asset_params_get AssetTotal"},
	{&teal.AssetParamsGetExpr{Field: teal.AssetDecimals}, "asset_params_get AssetDecimals"},
	{&teal.AssetParamsGetExpr{Field: teal.AssetDefaultFrozen}, "asset_params_get AssetDefaultFrozen"},
	{&teal.AssetParamsGetExpr{Field: teal.AssetUnitName}, "asset_params_get AssetUnitName"},
	{&teal.AssetParamsGetExpr{Field: teal.AssetName}, "asset_params_get AssetName"},
	{&teal.AssetParamsGetExpr{Field: teal.AssetURL}, "asset_params_get AssetURL"},
	{&teal.AssetParamsGetExpr{Field: teal.AssetMetadataHash}, "asset_params_get AssetMetadataHash"},
	{&teal.AssetParamsGetExpr{Field: teal.AssetManager}, "asset_params_get AssetManager"},
	{&teal.AssetParamsGetExpr{Field: teal.AssetReserve}, "asset_params_get AssetReserve"},
	{&teal.AssetParamsGetExpr{Field: teal.AssetFreeze}, "asset_params_get AssetFreeze"},
	{&teal.AssetParamsGetExpr{Field: teal.AssetClawback}, "asset_params_get AssetClawback"},
	{&teal.AssetParamsGetExpr{Field: teal.AssetCreator}, "asset_params_get AssetCreator"},
	{&teal.AppParamsGetExpr{Field: teal.AppApprovalProgram}, "app_params_get AppApprovalProgram"},
	{&teal.AppParamsGetExpr{Field: teal.AppClearStateProgram}, "app_params_get AppClearStateProgram"},
	{&teal.AppParamsGetExpr{Field: teal.AppGlobalNumUint}, "app_params_get AppGlobalNumUint"},
	{&teal.AppParamsGetExpr{Field: teal.AppGlobalNumByteSlice}, "app_params_get AppGlobalNumByteSlice"},
	{&teal.AppParamsGetExpr{Field: teal.AppLocalNumUint}, "app_params_get AppLocalNumUint"},
	{&teal.AppParamsGetExpr{Field: teal.AppLocalNumByteSlice}, "app_params_get AppLocalNumByteSlice"},
	{&teal.AppParamsGetExpr{Field: teal.AppExtraProgramPages}, "app_params_get AppExtraProgramPages"},
	{&teal.AppParamsGetExpr{Field: teal.AppCreator}, "app_params_get AppCreator"},
	{&teal.AppParamsGetExpr{Field: teal.AppAddress}, "app_params_get AppAddress"},
	{&teal.AcctParamsGetExpr{Field: teal.AcctBalance}, "acct_params_get AcctBalance"},
	{&teal.AcctParamsGetExpr{Field: teal.AcctMinBalance}, "acct_params_get AcctMinBalance"},
	{&teal.AcctParamsGetExpr{Field: teal.AcctAuthAddr}, "acct_params_get AcctAuthAddr"},
	{&teal.AcctParamsGetExpr{Field: teal.AcctTotalNumUint}, "acct_params_get AcctTotalNumUint"},
	{&teal.AcctParamsGetExpr{Field: teal.AcctTotalNumByteSlice}, "acct_params_get AcctTotalNumByteSlice"},
	{&teal.AcctParamsGetExpr{Field: teal.AcctTotalExtraAppPages}, "acct_params_get AcctTotalExtraAppPages"},
	{&teal.AcctParamsGetExpr{Field: teal.AcctTotalAppsCreated}, "acct_params_get AcctTotalAppsCreated"},
	{&teal.AcctParamsGetExpr{Field: teal.AcctTotalAppsOptedIn}, "acct_params_get AcctTotalAppsOptedIn"},
	{&teal.AcctParamsGetExpr{Field: teal.AcctTotalAssetsCreated}, "acct_params_get AcctTotalAssetsCreated"},
	{&teal.AcctParamsGetExpr{Field: teal.AcctTotalAssets}, "acct_params_get AcctTotalAssets"},
	{&teal.AcctParamsGetExpr{Field: teal.AcctTotalBoxes}, "acct_params_get AcctTotalBoxes"},
	{&teal.AcctParamsGetExpr{Field: teal.AcctTotalBoxBytes}, "acct_params_get AcctTotalBoxBytes"},
	{&teal.AssetHoldingGetExpr{Field: teal.AssetBalance}, "asset_holding_get AssetBalance"},
	{&teal.AssetHoldingGetExpr{Field: teal.AssetFrozen}, "asset_holding_get AssetFrozen"},
	{&teal.BlockExpr{Field: teal.BlkSeed}, "block BlkSeed"},
	{&teal.BlockExpr{Field: teal.BlkTimestamp}, "block BlkTimestamp"},
	{&teal.VrfVerifyExpr{Field: teal.VrfAlgorand}, "vrf_verify VrfAlgorand"},
	{&teal.EcdsaVerifyExpr{Index: teal.Secp256k1}, "ecdsa_verify Secp256k1"},
	{&teal.EcdsaVerifyExpr{Index: teal.Secp256r1}, "ecdsa_verify Secp256r1"},
	{&teal.EcdsaPkDecompressExpr{Index: teal.Secp256k1}, "ecdsa_pk_decompress Secp256k1"},
	{&teal.EcdsaPkDecompressExpr{Index: teal.Secp256r1}, "ecdsa_pk_decompress Secp256r1"},
	{&teal.EcdsaPkRecoverExpr{Index: teal.Secp256k1}, "ecdsa_pk_recover Secp256k1"},
	{&teal.EcdsaPkRecoverExpr{Index: teal.Secp256r1}, "ecdsa_pk_recover Secp256r1"},
	{&teal.EcAddExpr{Group: teal.BN254_G1}, "ec_add BN254_G1"},
	{&teal.EcAddExpr{Group: teal.BN254_G2}, "ec_add BN254_G2"},
	{&teal.EcAddExpr{Group: teal.BLS12_381_G1}, "ec_add BLS12_381_G1"},
	{&teal.EcAddExpr{Group: teal.BLS12_381_G2}, "ec_add BLS12_381_G2"},
	{&teal.EcScalarMul{Group: teal.BN254_G1}, "ec_scalar_mul BN254_G1"},
	{&teal.EcScalarMul{Group: teal.BN254_G2}, "ec_scalar_mul BN254_G2"},
	{&teal.EcScalarMul{Group: teal.BLS12_381_G1}, "ec_scalar_mul BLS12_381_G1"},
	{&teal.EcScalarMul{Group: teal.BLS12_381_G2}, "ec_scalar_mul BLS12_381_G2"},
	{&teal.EcPairingCheckExpr{Group: teal.BN254_G1}, "ec_pairing_check BN254_G1"},
	{&teal.EcPairingCheckExpr{Group: teal.BN254_G2}, "ec_pairing_check BN254_G2"},
	{&teal.EcPairingCheckExpr{Group: teal.BLS12_381_G1}, "ec_pairing_check BLS12_381_G1"},
	{&teal.EcPairingCheckExpr{Group: teal.BLS12_381_G2}, "ec_pairing_check BLS12_381_G2"},
	{&teal.EcMultiExpExpr{Group: teal.BN254_G1}, "ec_multi_exp BN254_G1"},
	{&teal.EcMultiExpExpr{Group: teal.BN254_G2}, "ec_multi_exp BN254_G2"},
	{&teal.EcMultiExpExpr{Group: teal.BLS12_381_G1}, "ec_multi_exp BLS12_381_G1"},
	{&teal.EcMultiExpExpr{Group: teal.BLS12_381_G2}, "ec_multi_exp BLS12_381_G2"},
	{&teal.EcSubgroupCheckExpr{Group: teal.BN254_G1}, "ec_subgroup_check BN254_G1"},
	{&teal.EcSubgroupCheckExpr{Group: teal.BN254_G2}, "ec_subgroup_check BN254_G2"},
	{&teal.EcSubgroupCheckExpr{Group: teal.BLS12_381_G1}, "ec_subgroup_check BLS12_381_G1"},
	{&teal.EcSubgroupCheckExpr{Group: teal.BLS12_381_G2}, "ec_subgroup_check BLS12_381_G2"},
	{&teal.EcMapToExpr{Group: teal.BN254_G1}, "ec_map_to BN254_G1"},
	{&teal.EcMapToExpr{Group: teal.BN254_G2}, "ec_map_to BN254_G2"},
	{&teal.EcMapToExpr{Group: teal.BLS12_381_G1}, "ec_map_to BLS12_381_G1"},
	{&teal.EcMapToExpr{Group: teal.BLS12_381_G2}, "ec_map_to BLS12_381_G2"},
	{&teal.Base64DecodeExpr{Index: uint8(teal.URLEncoding)}, "base64_decode URLEncoding"},
	{&teal.Base64DecodeExpr{Index: uint8(teal.StdEncoding)}, "base64_decode StdEncoding"},
	{&teal.JsonRefExpr{Index: uint8(teal.JSONString)}, "json_ref JSONString"},
	{&teal.JsonRefExpr{Index: uint8(teal.JSONUint64)}, "json_ref JSONUint64"},
	{&teal.JsonRefExpr{Index: uint8(teal.JSONObject)}, "json_ref JSONObject"},
}
