const vfBtc = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"
const vfXrp = "rpshnaf39wBUDNEGHJKLM4PQRST7VWXYZ2bcdeCg65jkm8oFqi1tuvAxyz"

type vfProfile struct {
	t        AddressType
	alphabet string
	chk      string
	hash     string
	n        int
	pre, suf []byte
}

// the published version bytes, checksum and payload length of every base58 address kind
var vfProfiles = []vfProfile{
	{BTC_mainnetAddressP2PKH, vfBtc, "doubleSHA256", "h160", 20, []byte{0x00}, []byte{}},
	{BTC_mainnetAddressP2SH, vfBtc, "doubleSHA256", "h160", 20, []byte{0x05}, []byte{}},
	{BTC_mainnetPrivateWIF, vfBtc, "doubleSHA256", "", 32, []byte{0x80}, []byte{}},
	{BTC_mainnetPrivateWIFCompressed, vfBtc, "doubleSHA256", "", 32, []byte{0x80}, []byte{0x01}},
	{BTC_mainnetPublicBIP32, vfBtc, "doubleSHA256", "", 74, []byte{0x04,0x88,0xB2,0x1E}, []byte{}},
	{BTC_mainnetPrivateBIP32, vfBtc, "doubleSHA256", "", 74, []byte{0x04,0x88,0xAD,0xE4}, []byte{}},
	{BTC_testnetAddressP2PKH, vfBtc, "doubleSHA256", "h160", 20, []byte{0x6F}, []byte{}},
	{BTC_testnetAddressP2SH, vfBtc, "doubleSHA256", "h160", 20, []byte{0xC4}, []byte{}},
	{BTC_testnetPrivateWIF, vfBtc, "doubleSHA256", "", 32, []byte{0xEF}, []byte{}},
	{BTC_testnetPrivateWIFCompressed, vfBtc, "doubleSHA256", "", 32, []byte{0xEF}, []byte{0x01}},
	{BTC_testnetPublicBIP32, vfBtc, "doubleSHA256", "", 74, []byte{0x04,0x35,0x87,0xCF}, []byte{}},
	{BTC_testnetPrivateBIP32, vfBtc, "doubleSHA256", "", 74, []byte{0x04,0x35,0x83,0x94}, []byte{}},
	{DOGE_multiSignAddressP2PKH, vfBtc, "doubleSHA256", "h160", 20, []byte{0x16}, []byte{}},
	{ONT_Address, vfBtc, "doubleSHA256", "h160", 20, []byte{0x17}, []byte{}},
	{XRP_Address, vfXrp, "doubleSHA256", "h160", 20, []byte{0x00}, []byte{}},
	{ZEC_mainnet_t_AddressP2PKH, vfBtc, "doubleSHA256", "h160", 20, []byte{0x1C,0xB8}, []byte{}},
	{ZEC_mainnet_t_AddressP2SH, vfBtc, "doubleSHA256", "h160", 20, []byte{0x1C,0xBD}, []byte{}},
	{ZEC_testnet_t_AddressP2PKH, vfBtc, "doubleSHA256", "h160", 20, []byte{0x1D,0x25}, []byte{}},
	{ZEC_testnet_t_AddressP2SH, vfBtc, "doubleSHA256", "h160", 20, []byte{0x1C,0xBA}, []byte{}},
	{LTC_mainnetAddressP2PKH, vfBtc, "doubleSHA256", "h160", 20, []byte{0x30}, []byte{}},
	{LTC_mainnetAddressP2SH, vfBtc, "doubleSHA256", "h160", 20, []byte{0x05}, []byte{}},
	{LTC_mainnetAddressP2SH2, vfBtc, "doubleSHA256", "h160", 20, []byte{0x32}, []byte{}},
	{LTC_mainnetPrivateWIF, vfBtc, "doubleSHA256", "", 32, []byte{0xB0}, []byte{}},
	{LTC_mainnetPrivateWIFCompressed, vfBtc, "doubleSHA256", "", 32, []byte{0xB0}, []byte{0x01}},
	{LTC_mainnetPublicBIP32, vfBtc, "doubleSHA256", "", 74, []byte{0x04,0x88,0xB2,0x1E}, []byte{}},
	{LTC_mainnetPrivateBIP32, vfBtc, "doubleSHA256", "", 74, []byte{0x04,0x88,0xAD,0xE4}, []byte{}},
	{LTC_testnetAddressP2PKH, vfBtc, "doubleSHA256", "h160", 20, []byte{0x6F}, []byte{}},
	{LTC_testnetAddressP2SH, vfBtc, "doubleSHA256", "h160", 20, []byte{0xC4}, []byte{}},
	{LTC_testnetAddressP2SH2, vfBtc, "doubleSHA256", "h160", 20, []byte{0x3A}, []byte{}},
	{LTC_testnetPrivateWIF, vfBtc, "doubleSHA256", "", 32, []byte{0xEF}, []byte{}},
	{LTC_testnetPrivateWIFCompressed, vfBtc, "doubleSHA256", "", 32, []byte{0xEF}, []byte{0x01}},
	{LTC_testnetPublicBIP32, vfBtc, "doubleSHA256", "", 74, []byte{0x04,0x35,0x87,0xCF}, []byte{}},
	{LTC_testnetPrivateBIP32, vfBtc, "doubleSHA256", "", 74, []byte{0x04,0x35,0x83,0x94}, []byte{}},
	{BCH_mainnetAddressLegacy, vfBtc, "doubleSHA256", "h160", 20, []byte{0x00}, []byte{}},
	{XTZ_mainnetAddress_tz1, vfBtc, "doubleSHA256", "blake2b160", 20, []byte{0x06,0xA1,0x9F}, []byte{}},
	{XTZ_mainnetAddress_tz2, vfBtc, "doubleSHA256", "blake2b160", 20, []byte{0x06,0xA1,0xA1}, []byte{}},
	{XTZ_mainnetAddress_tz3, vfBtc, "doubleSHA256", "blake2b160", 20, []byte{0x06,0xA1,0xA4}, []byte{}},
	{XTZ_mainnetPublic_edpk, vfBtc, "doubleSHA256", "", 32, []byte{0x0D,0x0F,0x25,0xD9}, []byte{}},
	{XTZ_mainnetPrivate_edsk, vfBtc, "doubleSHA256", "", 64, []byte{0x0D,0x0F,0x3A,0x07}, []byte{}},
	{XTZ_mainnetPrivate_edsk2, vfBtc, "doubleSHA256", "", 32, []byte{0x2B,0xF6,0x4E,0x07}, []byte{}},
	{XTZ_mainnetPrivate_spsk, vfBtc, "doubleSHA256", "", 32, []byte{0x11,0xA2,0xE0,0xC9}, []byte{}},
	{XTZ_mainnetPrivate_p2sk, vfBtc, "doubleSHA256", "blake2b160", 32, []byte{0x10,0x51,0xEE,0xBD}, []byte{}},
	{QTUM_mainnetAddressP2PKH, vfBtc, "doubleSHA256", "h160", 20, []byte{0x3A}, []byte{}},
	{QTUM_mainnetAddressP2SH, vfBtc, "doubleSHA256", "h160", 20, []byte{0x32}, []byte{}},
	{QTUM_mainnetPrivateWIF, vfBtc, "doubleSHA256", "", 32, []byte{0x80}, []byte{}},
	{QTUM_mainnetPrivateWIFCompressed, vfBtc, "doubleSHA256", "", 32, []byte{0x80}, []byte{0x01}},
	{QTUM_mainnetPublicBIP32, vfBtc, "doubleSHA256", "", 74, []byte{0x04,0x88,0xB2,0x1E}, []byte{}},
	{QTUM_mainnetPrivateBIP32, vfBtc, "doubleSHA256", "", 74, []byte{0x04,0x88,0xAD,0xE4}, []byte{}},
	{QTUM_testnetAddressP2PKH, vfBtc, "doubleSHA256", "h160", 20, []byte{0x78}, []byte{}},
	{QTUM_testnetAddressP2SH, vfBtc, "doubleSHA256", "h160", 20, []byte{0x6E}, []byte{}},
	{QTUM_testnetPrivateWIF, vfBtc, "doubleSHA256", "", 32, []byte{0xEF}, []byte{}},
	{QTUM_testnetPrivateWIFCompressed, vfBtc, "doubleSHA256", "", 32, []byte{0xEF}, []byte{0x01}},
	{QTUM_testnetPublicBIP32, vfBtc, "doubleSHA256", "", 74, []byte{0x04,0x35,0x87,0xCF}, []byte{}},
	{QTUM_testnetPrivateBIP32, vfBtc, "doubleSHA256", "", 74, []byte{0x04,0x35,0x83,0x94}, []byte{}},
	{DCRD_mainnetAddressP2PKH, vfBtc, "doubleBlake256", "ripemd160", 20, []byte{0x07,0x3f}, []byte{}},
	{DCRD_mainnetAddressP2PK, vfBtc, "doubleBlake256", "ripemd160", 20, []byte{0x13,0x86}, []byte{}},
	{DCRD_mainnetAddressPKHEdwards, vfBtc, "doubleBlake256", "ripemd160", 20, []byte{0x07,0x1f}, []byte{}},
	{DCRD_mainnetAddressPKHSchnorr, vfBtc, "doubleBlake256", "ripemd160", 20, []byte{0x07,0x01}, []byte{}},
	{DCRD_mainnetAddressP2SH, vfBtc, "doubleBlake256", "ripemd160", 20, []byte{0x07,0x1a}, []byte{}},
	{DCRD_mainnetAddressPrivate, vfBtc, "doubleBlake256", "ripemd160", 20, []byte{0x22,0xde}, []byte{}},
	{DCRD_testnetAddressP2PKH, vfBtc, "doubleBlake256", "ripemd160", 20, []byte{0x0f,0x21}, []byte{}},
	{DCRD_testnetAddressP2PK, vfBtc, "doubleBlake256", "ripemd160", 20, []byte{0x28,0xf7}, []byte{}},
	{DCRD_testnetAddressPKHEdwards, vfBtc, "doubleBlake256", "ripemd160", 20, []byte{0x0f,0x01}, []byte{}},
	{DCRD_testnetAddressP2PKHSchnorr, vfBtc, "doubleBlake256", "ripemd160", 20, []byte{0x0e,0xe3}, []byte{}},
	{DCRD_testnetAddressP2SH, vfBtc, "doubleBlake256", "ripemd160", 20, []byte{0x0e,0xfc}, []byte{}},
	{DCRD_testnetAddressPrivate, vfBtc, "doubleBlake256", "ripemd160", 20, []byte{0x23,0x0e}, []byte{}},
	{DCRD_simnetAddressP2PKH, vfBtc, "doubleBlake256", "ripemd160", 20, []byte{0x0e,0x91}, []byte{}},
	{DCRD_simnetAddressP2PK, vfBtc, "doubleBlake256", "ripemd160", 20, []byte{0x27,0x6f}, []byte{}},
	{DCRD_simnetAddressPKHEdwards, vfBtc, "doubleBlake256", "ripemd160", 20, []byte{0x0e,0x71}, []byte{}},
	{DCRD_simnetAddressPKHSchnorr, vfBtc, "doubleBlake256", "ripemd160", 20, []byte{0x0e,0x53}, []byte{}},
	{DCRD_simnetAddressP2SH, vfBtc, "doubleBlake256", "ripemd160", 20, []byte{0x0e,0x6c}, []byte{}},
	{DCRD_simnetAddressPrivate, vfBtc, "doubleBlake256", "ripemd160", 20, []byte{0x23,0x07}, []byte{}},
	{NAS_AccountAddress, vfBtc, "sha3_256", "sha3_256_ripemd160", 20, []byte{0x19,0x57}, []byte{}},
	{NAS_SmartContractAddress, vfBtc, "sha3_256", "sha3_256_ripemd160", 20, []byte{0x19,0x58}, []byte{}},
	{TRON_mainnetAddress, vfBtc, "doubleSHA256", "keccak256_last_twenty", 20, []byte{0x41}, []byte{}},
	{TRON_testnetAddress, vfBtc, "doubleSHA256", "keccak256_last_twenty", 20, []byte{0xa0}, []byte{}},
	{VSYS_mainnetAddress, vfBtc, "blake2b_and_keccak256_first_twenty", "blake2b_and_keccak256_first_twenty", 20, []byte{0x05,0x4D}, []byte{}},
	{VSYS_testnetAddress, vfBtc, "blake2b_and_keccak256_first_twenty", "blake2b_and_keccak256_first_twenty", 20, []byte{0x05,0x54}, []byte{}},
	{EOS_mainnetPrivateWIF, vfBtc, "doubleSHA256", "", 32, []byte{0x80}, []byte{}},
	{EOS_mainnetPrivateWIFCompressed, vfBtc, "doubleSHA256", "", 32, []byte{0x80}, []byte{0x01}},
	{ELA_Address, vfBtc, "doubleSHA256", "h160", 20, []byte{0x21}, []byte{}},
	{WICC_mainnetAddressP2PKH, vfBtc, "doubleSHA256", "h160", 20, []byte{0x49}, []byte{}},
	{WICC_testnetAddressP2PKH, vfBtc, "doubleSHA256", "h160", 20, []byte{0x87}, []byte{}},
	{TV_mainnetAddress, vfBtc, "blake2b_and_keccak256_first_twenty", "blake2b_and_keccak256_first_twenty", 20, []byte{0x1D,0x3B}, []byte{}},
	{TV_testnetAddress, vfBtc, "blake2b_and_keccak256_first_twenty", "blake2b_and_keccak256_first_twenty", 20, []byte{0x1D,0x54}, []byte{}},
	{HC_mainnetPublicAddress, vfBtc, "doubleBlake256", "h160", 20, []byte{0x09,0x7F}, []byte{}},
	{HC_mainnetAddressP2PK, vfBtc, "doubleBlake256", "h160", 20, []byte{0x19,0xa4}, []byte{}},
	{HC_mainnetAddressP2PKBliss, vfBtc, "doubleBlake256", "h160", 20, []byte{0x07,0xc3}, []byte{}},
	{HC_mainnetAddressP2PKH, vfBtc, "doubleBlake256", "h160", 20, []byte{0x09,0x7f}, []byte{}},
	{HC_mainnetAddressPKHEdwards, vfBtc, "doubleBlake256", "h160", 20, []byte{0x09,0x60}, []byte{}},
	{HC_mainnetAddressPKHSchnorr, vfBtc, "doubleBlake256", "h160", 20, []byte{0x09,0x41}, []byte{}},
	{HC_mainnetAddressPKHBliss, vfBtc, "doubleBlake256", "h160", 20, []byte{0x09,0x58}, []byte{}},
	{HC_mainnetAddressP2SH, vfBtc, "doubleBlake256", "h160", 20, []byte{0x09,0x5a}, []byte{}},
	{HC_mainnetAddressPrivate, vfBtc, "doubleBlake256", "h160", 20, []byte{0x19,0xab}, []byte{}},
	{HC_testnetAddressP2PK, vfBtc, "doubleBlake256", "h160", 20, []byte{0x28,0xf7}, []byte{}},
	{HC_testnetAddressP2PKBliss, vfBtc, "doubleBlake256", "h160", 20, []byte{0x0c,0x66}, []byte{}},
	{HC_testnetAddressP2PKH, vfBtc, "doubleBlake256", "h160", 20, []byte{0x0f,0x21}, []byte{}},
	{HC_testnetAddressPKHEdwards, vfBtc, "doubleBlake256", "h160", 20, []byte{0x0f,0x01}, []byte{}},
	{HC_testnetAddressP2PKHSchnorr, vfBtc, "doubleBlake256", "h160", 20, []byte{0x0e,0xe3}, []byte{}},
	{HC_testnetAddressPKHBliss, vfBtc, "doubleBlake256", "h160", 20, []byte{0x0e,0xf9}, []byte{}},
	{HC_testnetAddressP2SH, vfBtc, "doubleBlake256", "h160", 20, []byte{0x0e,0xfc}, []byte{}},
	{HC_testnetAddressPrivate, vfBtc, "doubleBlake256", "h160", 20, []byte{0x23,0x0e}, []byte{}},
	{HC_simnetAddressP2PK, vfBtc, "doubleBlake256", "h160", 20, []byte{0x27,0x6f}, []byte{}},
	{HC_simnetAddressP2PKBliss, vfBtc, "doubleBlake256", "h160", 20, []byte{0x0b,0xef}, []byte{}},
	{HC_simnetAddressP2PKH, vfBtc, "doubleBlake256", "h160", 20, []byte{0x0e,0x91}, []byte{}},
	{HC_simnetAddressPKHEdwards, vfBtc, "doubleBlake256", "h160", 20, []byte{0x0e,0x71}, []byte{}},
	{HC_simnetAddressPKHSchnorr, vfBtc, "doubleBlake256", "h160", 20, []byte{0x0e,0x53}, []byte{}},
	{HC_simnetAddressPKHBliss, vfBtc, "doubleBlake256", "h160", 20, []byte{0x0e,0x69}, []byte{}},
	{HC_simnetAddressP2SH, vfBtc, "doubleBlake256", "h160", 20, []byte{0x0e,0x6c}, []byte{}},
	{HC_simnetAddressPrivate, vfBtc, "doubleBlake256", "h160", 20, []byte{0x23,0x07}, []byte{}},
	{BSV_mainnetAddressP2PKH, vfBtc, "doubleSHA256", "h160", 20, []byte{0x00}, []byte{}},
	{BSV_mainnetAddressP2SH, vfBtc, "doubleSHA256", "h160", 20, []byte{0x05}, []byte{}},
}

func vfCat(xs ...[]byte) []byte {
	var r []byte
	for _, x := range xs {
		r = append(r, x...)
	}
	return r
}

// reference checksums
func vfSum(kind string, b []byte) []byte {
	switch kind {
	case "doubleSHA256":
		return owcrypt.Hash(owcrypt.Hash(b, 0, owcrypt.HASH_ALG_SHA256), 0, owcrypt.HASH_ALG_SHA256)[:4]
	case "doubleBlake256":
		return blake256.DoubleBlake256(b)[:4]
	case "keccak256":
		return owcrypt.Hash(b, 0, owcrypt.HASH_ALG_KECCAK256)[:4]
	case "sha3_256":
		return owcrypt.Hash(b, 0, owcrypt.HASH_ALG_SHA3_256)[:4]
	case "ripemd160":
		return owcrypt.Hash(b, 0, owcrypt.HASH_ALG_RIPEMD160)[:4]
	case "blake2b_and_keccak256_first_twenty":
		return owcrypt.Hash(owcrypt.Hash(b, 32, owcrypt.HASH_ALG_BLAKE2B), 32, owcrypt.HASH_ALG_KECCAK256)[:4]
	}
	panic("checksum kind")
}

// reference public key hashes
func vfKeyHash(kind string, b []byte) []byte {
	switch kind {
	case "h160":
		return owcrypt.Hash(owcrypt.Hash(b, 0, owcrypt.HASH_ALG_SHA256), 0, owcrypt.HASH_ALG_RIPEMD160)
	case "blake2b160":
		return owcrypt.Hash(b, 20, owcrypt.HASH_ALG_BLAKE2B)
	case "ripemd160":
		return owcrypt.Hash(b, 20, owcrypt.HASH_ALG_RIPEMD160)
	case "sha3_256_ripemd160":
		return owcrypt.Hash(owcrypt.Hash(b, 0, owcrypt.HASH_ALG_SHA3_256), 0, owcrypt.HASH_ALG_RIPEMD160)
	case "keccak256_last_twenty":
		return owcrypt.Hash(b, 0, owcrypt.HASH_ALG_KECCAK256)[12:]
	case "sha3_256_last_twenty":
		return owcrypt.Hash(b, 0, owcrypt.HASH_ALG_SHA3_256)[12:]
	case "keccak256":
		return owcrypt.Hash(b, 0, owcrypt.HASH_ALG_KECCAK256)
	case "blake2b_and_keccak256_first_twenty":
		return owcrypt.Hash(owcrypt.Hash(b, 32, owcrypt.HASH_ALG_BLAKE2B), 32, owcrypt.HASH_ALG_KECCAK256)[:20]
	}
	return nil
}
