"""The parameters of every supported network (chainparams of the coins)."""

DEFAULTS = {
    'BECH32_HRP': None,
    'CASHADDR_ENCODER': 'riemann.encoding.cashaddr',
    'CASHADDR_P2PKH': None,
    'CASHADDR_P2SH': None,
    'CASHADDR_PREFIX': None,
    'CODE_TO_INT_OVERWRITE': {},
    'FORKID': None,
    'INT_TO_CODE_OVERWRITE': {},
    'LEGACY_ENCODER': 'riemann.encoding.base58',
    'NETWORK_NAME': None,
    'OPCODE_CHANGES': [],
    'P2PKH_PREFIX': b'\x00',
    'P2PK_PREFIX': '?',
    'P2SH_PREFIX': b'\x05',
    'P2WPKH_PREFIX': b'\x00\x14',
    'P2WSH_PREFIX': b'\x00 ',
    'SEGWIT': False,
    'SEGWIT_ENCODER': 'riemann.encoding.bech32',
    'SEGWIT_TX_FLAG': b'\x00\x01',
    'SUBNET_NAME': None,
    'SYMBOL': None,
}

TABLE = {
    'bitcoin_main': {
        'BECH32_HRP': 'bc',
        'NETWORK_NAME': 'bitcoin',
        'P2PK_PREFIX': None,
        'SEGWIT': True,
        'SUBNET_NAME': 'main',
        'SYMBOL': 'BTC',
    },
    'bitcoin_test': {
        'BECH32_HRP': 'tb',
        'NETWORK_NAME': 'bitcoin',
        'P2PKH_PREFIX': b'o',
        'P2PK_PREFIX': None,
        'P2SH_PREFIX': b'\xc4',
        'SEGWIT': True,
        'SUBNET_NAME': 'test',
        'SYMBOL': 'tBTC',
    },
    'bitcoin_reg': {
        'BECH32_HRP': 'bcrt',
        'NETWORK_NAME': 'bitcoin',
        'P2PKH_PREFIX': b'o',
        'P2PK_PREFIX': None,
        'P2SH_PREFIX': b'\xc4',
        'SEGWIT': True,
        'SUBNET_NAME': 'reg',
        'SYMBOL': 'rBTC',
    },
    'litecoin_main': {
        'BECH32_HRP': 'ltc',
        'NETWORK_NAME': 'litecoin',
        'P2PKH_PREFIX': b'0',
        'P2PK_PREFIX': None,
        'P2SH_PREFIX': b'2',
        'SEGWIT': True,
        'SUBNET_NAME': 'main',
        'SYMBOL': 'LTC',
    },
    'litecoin_test': {
        'BECH32_HRP': 'tltc',
        'NETWORK_NAME': 'litecoin',
        'P2PKH_PREFIX': b'o',
        'P2PK_PREFIX': None,
        'P2SH_PREFIX': b':',
        'SEGWIT': True,
        'SUBNET_NAME': 'test',
        'SYMBOL': 'tLTC',
    },
    'litecoin_reg': {
        'BECH32_HRP': 'tltc',
        'NETWORK_NAME': 'litecoin',
        'P2PKH_PREFIX': b'o',
        'P2PK_PREFIX': None,
        'P2SH_PREFIX': b':',
        'SEGWIT': True,
        'SUBNET_NAME': 'reg',
        'SYMBOL': 'rLTC',
    },
    'bitcoin_cash_main': {
        'CASHADDR_P2PKH': b'\x00',
        'CASHADDR_P2SH': b'\x08',
        'CASHADDR_PREFIX': 'bitcoincash',
        'FORKID': 0,
        'NETWORK_NAME': 'bitcoin_cash',
        'P2PK_PREFIX': None,
        'SUBNET_NAME': 'main',
        'SYMBOL': 'BCH',
    },
    'bitcoin_cash_test': {
        'CASHADDR_P2PKH': b'\x00',
        'CASHADDR_P2SH': b'\x08',
        'CASHADDR_PREFIX': 'bchtest',
        'FORKID': 0,
        'NETWORK_NAME': 'bitcoin_cash',
        'P2PKH_PREFIX': b'o',
        'P2PK_PREFIX': None,
        'P2SH_PREFIX': b'\xc4',
        'SUBNET_NAME': 'test',
        'SYMBOL': 'tBCH',
    },
    'bitcoin_cash_reg': {
        'CASHADDR_P2PKH': b'\x00',
        'CASHADDR_P2SH': b'\x08',
        'CASHADDR_PREFIX': 'bchtest',
        'FORKID': 0,
        'NETWORK_NAME': 'bitcoin_cash',
        'P2PKH_PREFIX': b'o',
        'P2PK_PREFIX': None,
        'P2SH_PREFIX': b'\xc4',
        'SUBNET_NAME': 'reg',
        'SYMBOL': 'rBCH',
    },
    'bitcoin_gold_main': {
        'BECH32_HRP': 'btg',
        'FORKID': 79,
        'NETWORK_NAME': 'bitcoin_gold',
        'P2PKH_PREFIX': b'&',
        'P2PK_PREFIX': None,
        'P2SH_PREFIX': b'\x17',
        'SEGWIT': True,
        'SUBNET_NAME': 'main',
        'SYMBOL': 'BTG',
    },
    'bitcoin_gold_test': {
        'BECH32_HRP': 'tbtg',
        'FORKID': 79,
        'NETWORK_NAME': 'bitcoin_gold',
        'P2PKH_PREFIX': b'o',
        'P2PK_PREFIX': None,
        'P2SH_PREFIX': b'\xc4',
        'SEGWIT': True,
        'SUBNET_NAME': 'test',
        'SYMBOL': 'tBTG',
    },
    'bitcoin_gold_reg': {
        'BECH32_HRP': 'tbtg',
        'FORKID': 79,
        'NETWORK_NAME': 'bitcoin_gold',
        'P2PKH_PREFIX': b'o',
        'P2PK_PREFIX': None,
        'P2SH_PREFIX': b'\xc4',
        'SEGWIT': True,
        'SUBNET_NAME': 'reg',
        'SYMBOL': 'rBTG',
    },
    'dogecoin_main': {
        'NETWORK_NAME': 'dogecoin',
        'P2PKH_PREFIX': b'\x1e',
        'P2PK_PREFIX': None,
        'P2SH_PREFIX': b'\x16',
        'SUBNET_NAME': 'main',
        'SYMBOL': 'DOGE',
    },
    'dogecoin_test': {
        'NETWORK_NAME': 'dogecoin',
        'P2PKH_PREFIX': b'q',
        'P2PK_PREFIX': None,
        'P2SH_PREFIX': b'\xc4',
        'SUBNET_NAME': 'test',
        'SYMBOL': 'tDOGE',
    },
    'dogecoin_reg': {
        'NETWORK_NAME': 'dogecoin',
        'P2PKH_PREFIX': b'q',
        'P2PK_PREFIX': None,
        'P2SH_PREFIX': b'\xc4',
        'SUBNET_NAME': 'reg',
        'SYMBOL': 'rDOGE',
    },
    'dash_main': {
        'NETWORK_NAME': 'dash',
        'P2PKH_PREFIX': b'L',
        'P2PK_PREFIX': None,
        'P2SH_PREFIX': b'\x10',
        'SUBNET_NAME': 'main',
        'SYMBOL': 'DASH',
    },
    'dash_test': {
        'NETWORK_NAME': 'dash',
        'P2PKH_PREFIX': b'\x8c',
        'P2PK_PREFIX': None,
        'P2SH_PREFIX': b'\x13',
        'SUBNET_NAME': 'test',
        'SYMBOL': 'tDASH',
    },
    'dash_reg': {
        'NETWORK_NAME': 'dash',
        'P2PKH_PREFIX': b'\x8c',
        'P2PK_PREFIX': None,
        'P2SH_PREFIX': b'\x13',
        'SUBNET_NAME': 'reg',
        'SYMBOL': 'rDASH',
    },
    'zcash_sprout_main': {
        'NETWORK_NAME': 'zcash_sprout',
        'P2PKH_PREFIX': b'\x1c\xb8',
        'P2PK_PREFIX': None,
        'P2SH_PREFIX': b'\x1c\xbd',
        'SUBNET_NAME': 'main',
        'SYMBOL': 'ZEC',
    },
    'zcash_sprout_test': {
        'NETWORK_NAME': 'zcash_sprout',
        'P2PKH_PREFIX': b'\x1d%',
        'P2PK_PREFIX': None,
        'P2SH_PREFIX': b'\x1c\xba',
        'SUBNET_NAME': 'test',
        'SYMBOL': 'tZEC',
    },
    'zcash_sprout_reg': {
        'NETWORK_NAME': 'zcash_sprout',
        'P2PKH_PREFIX': b'\x1d%',
        'P2PK_PREFIX': None,
        'P2SH_PREFIX': b'\x1c\xba',
        'SUBNET_NAME': 'reg',
        'SYMBOL': 'rZEC',
    },
    'zcash_overwinter_main': {
        'NETWORK_NAME': 'zcash_overwinter',
        'P2PKH_PREFIX': b'\x1c\xb8',
        'P2PK_PREFIX': None,
        'P2SH_PREFIX': b'\x1c\xbd',
        'SUBNET_NAME': 'main',
        'SYMBOL': 'ZEC',
    },
    'zcash_overwinter_test': {
        'NETWORK_NAME': 'zcash_overwinter',
        'P2PKH_PREFIX': b'\x1d%',
        'P2PK_PREFIX': None,
        'P2SH_PREFIX': b'\x1c\xba',
        'SUBNET_NAME': 'test',
        'SYMBOL': 'tZEC',
    },
    'zcash_overwinter_reg': {
        'NETWORK_NAME': 'zcash_overwinter',
        'P2PKH_PREFIX': b'\x1d%',
        'P2PK_PREFIX': None,
        'P2SH_PREFIX': b'\x1c\xba',
        'SUBNET_NAME': 'reg',
        'SYMBOL': 'rZEC',
    },
    'zcash_sapling_main': {
        'NETWORK_NAME': 'zcash_sapling',
        'P2PKH_PREFIX': b'\x1c\xb8',
        'P2PK_PREFIX': None,
        'P2SH_PREFIX': b'\x1c\xbd',
        'SUBNET_NAME': 'main',
        'SYMBOL': 'ZEC',
    },
    'zcash_sapling_test': {
        'NETWORK_NAME': 'zcash_sapling',
        'P2PKH_PREFIX': b'\x1d%',
        'P2PK_PREFIX': None,
        'P2SH_PREFIX': b'\x1c\xba',
        'SUBNET_NAME': 'test',
        'SYMBOL': 'tZEC',
    },
    'zcash_sapling_reg': {
        'NETWORK_NAME': 'zcash_sapling',
        'P2PKH_PREFIX': b'\x1d%',
        'P2PK_PREFIX': None,
        'P2SH_PREFIX': b'\x1c\xba',
        'SUBNET_NAME': 'reg',
        'SYMBOL': 'rZEC',
    },
    'decred_main': {
        'CODE_TO_INT_OVERWRITE': {'OP_BLAKE256': 168, 'OP_SHA256': 192},
        'INT_TO_CODE_OVERWRITE': {168: 'OP_BLAKE256', 192: 'OP_SHA256'},
        'NETWORK_NAME': 'decred',
        'OPCODE_CHANGES': [('OP_BLAKE256', 168), ('OP_SHA256', 192)],
        'P2PKH_PREFIX': b'\x07?',
        'P2PK_PREFIX': b'\x13\x86',
        'P2SH_PREFIX': b'\x07\x1a',
        'SUBNET_NAME': 'main',
        'SYMBOL': 'DCR',
    },
    'decred_test': {
        'CODE_TO_INT_OVERWRITE': {'OP_BLAKE256': 168, 'OP_SHA256': 192},
        'INT_TO_CODE_OVERWRITE': {168: 'OP_BLAKE256', 192: 'OP_SHA256'},
        'NETWORK_NAME': 'decred',
        'OPCODE_CHANGES': [('OP_BLAKE256', 168), ('OP_SHA256', 192)],
        'P2PKH_PREFIX': b'\x0f!',
        'P2PK_PREFIX': b'(\xf7',
        'P2SH_PREFIX': b'\x0e\xfc',
        'SUBNET_NAME': 'test',
        'SYMBOL': 'DCRT',
    },
    'decred_simnet': {
        'CODE_TO_INT_OVERWRITE': {'OP_BLAKE256': 168, 'OP_SHA256': 192},
        'INT_TO_CODE_OVERWRITE': {168: 'OP_BLAKE256', 192: 'OP_SHA256'},
        'NETWORK_NAME': 'decred',
        'OPCODE_CHANGES': [('OP_BLAKE256', 168), ('OP_SHA256', 192)],
        'P2PKH_PREFIX': b'(\xf7',
        'P2PK_PREFIX': None,
        'P2SH_PREFIX': b'\x0e\xfc',
        'SUBNET_NAME': 'simnet',
        'SYMBOL': 'DCRS',
    },
    'pivx_main': {
        'NETWORK_NAME': 'pivx',
        'P2PKH_PREFIX': b'\x1e',
        'P2PK_PREFIX': None,
        'P2SH_PREFIX': b'\r',
        'SUBNET_NAME': 'main',
        'SYMBOL': 'PIVX',
    },
    'pivx_test': {
        'NETWORK_NAME': 'pivx',
        'P2PKH_PREFIX': b'\x8b',
        'P2PK_PREFIX': None,
        'P2SH_PREFIX': b'\x13',
        'SUBNET_NAME': 'test',
        'SYMBOL': 'tPIVX',
    },
    'pivx_reg': {
        'NETWORK_NAME': 'pivx',
        'P2PKH_PREFIX': b'\x8b',
        'P2PK_PREFIX': None,
        'P2SH_PREFIX': b'\x13',
        'SUBNET_NAME': 'reg',
        'SYMBOL': 'rPIVX',
    },
    'viacoin_main': {
        'BECH32_HRP': 'via',
        'NETWORK_NAME': 'viacoin',
        'P2PKH_PREFIX': b'G',
        'P2PK_PREFIX': None,
        'P2SH_PREFIX': b'!',
        'SEGWIT': True,
        'SUBNET_NAME': 'main',
        'SYMBOL': 'VIA',
    },
    'viacoin_test': {
        'BECH32_HRP': 'tvia',
        'NETWORK_NAME': 'viacoin',
        'P2PKH_PREFIX': b'\x7f',
        'P2PK_PREFIX': None,
        'P2SH_PREFIX': b'\xc4',
        'SEGWIT': True,
        'SUBNET_NAME': 'test',
        'SYMBOL': 'tVIA',
    },
    'viacoin_simnet': {
        'BECH32_HRP': 'svia',
        'NETWORK_NAME': 'viacoin',
        'P2PKH_PREFIX': b'o',
        'P2PK_PREFIX': None,
        'P2SH_PREFIX': b'\xc4',
        'SEGWIT': True,
        'SUBNET_NAME': 'simnet',
        'SYMBOL': 'sVIA',
    },
    'feathercoin_main': {
        'BECH32_HRP': 'fc',
        'NETWORK_NAME': 'feathercoin',
        'P2PKH_PREFIX': b'\x0e',
        'P2PK_PREFIX': None,
        'P2SH_PREFIX': b'`',
        'SEGWIT': True,
        'SUBNET_NAME': 'main',
        'SYMBOL': 'FTC',
    },
    'feathercoin_test': {
        'BECH32_HRP': 'tf',
        'NETWORK_NAME': 'feathercoin',
        'P2PKH_PREFIX': b'o',
        'P2PK_PREFIX': None,
        'P2SH_PREFIX': b'\xc4',
        'SEGWIT': True,
        'SUBNET_NAME': 'test',
        'SYMBOL': 'tFTC',
    },
    'feathercoin_reg': {
        'BECH32_HRP': 'fcrt',
        'NETWORK_NAME': 'feathercoin',
        'P2PKH_PREFIX': b'o',
        'P2PK_PREFIX': None,
        'P2SH_PREFIX': b'\xc4',
        'SEGWIT': True,
        'SUBNET_NAME': 'reg',
        'SYMBOL': 'rFTC',
    },
    'bitcoin_dark_main': {
        'NETWORK_NAME': 'bitcoin_dark',
        'P2PKH_PREFIX': b'<',
        'P2PK_PREFIX': None,
        'P2SH_PREFIX': b'U',
        'SUBNET_NAME': 'main',
        'SYMBOL': 'BTCD',
    },
    'bitcoin_dark_test': {
        'NETWORK_NAME': 'bitcoin_dark',
        'P2PKH_PREFIX': b'o',
        'P2PK_PREFIX': None,
        'P2SH_PREFIX': b'\xc4',
        'SUBNET_NAME': 'test',
        'SYMBOL': 'tBTCD',
    },
    'bitcoin_dark_reg': {
        'NETWORK_NAME': 'bitcoin_dark',
        'P2PKH_PREFIX': b'o',
        'P2PK_PREFIX': None,
        'P2SH_PREFIX': b'\xc4',
        'SUBNET_NAME': 'reg',
        'SYMBOL': 'rBTCD',
    },
    'axe_main': {
        'NETWORK_NAME': 'axe',
        'P2PKH_PREFIX': b'7',
        'P2PK_PREFIX': None,
        'P2SH_PREFIX': b'\x10',
        'SUBNET_NAME': 'main',
        'SYMBOL': 'AXE',
    },
    'axe_test': {
        'NETWORK_NAME': 'axe',
        'P2PKH_PREFIX': b'\x8c',
        'P2PK_PREFIX': None,
        'P2SH_PREFIX': b'\x13',
        'SUBNET_NAME': 'test',
        'SYMBOL': 'tAXE',
    },
    'axe_reg': {
        'NETWORK_NAME': 'axe',
        'P2PKH_PREFIX': b'\x8c',
        'P2PK_PREFIX': None,
        'P2SH_PREFIX': b'\x13',
        'SUBNET_NAME': 'reg',
        'SYMBOL': 'rAXE',
    },
    'bitcore_main': {
        'NETWORK_NAME': 'bitcore',
        'P2PK_PREFIX': None,
        'P2SH_PREFIX': b'2',
        'SEGWIT': True,
        'SEGWIT_ENCODER': 'riemann.encoding.base58',
        'SUBNET_NAME': 'main',
        'SYMBOL': 'BTX',
    },
    'bitcore_test': {
        'NETWORK_NAME': 'bitcore',
        'P2PKH_PREFIX': b'o',
        'P2PK_PREFIX': None,
        'P2SH_PREFIX': b':',
        'SEGWIT': True,
        'SEGWIT_ENCODER': 'riemann.encoding.base58',
        'SUBNET_NAME': 'test',
        'SYMBOL': 'tBTX',
    },
    'bitcore_reg': {
        'NETWORK_NAME': 'bitcore',
        'P2PKH_PREFIX': b'o',
        'P2PK_PREFIX': None,
        'P2SH_PREFIX': b':',
        'SEGWIT': True,
        'SEGWIT_ENCODER': 'riemann.encoding.base58',
        'SUBNET_NAME': 'reg',
        'SYMBOL': 'rBTX',
    },
    'digibyte_main': {
        'BECH32_HRP': 'dgb',
        'NETWORK_NAME': 'digibyte',
        'P2PKH_PREFIX': b'\x1e',
        'P2PK_PREFIX': None,
        'P2SH_PREFIX': b'?',
        'SEGWIT': True,
        'SUBNET_NAME': 'main',
        'SYMBOL': 'DGB',
    },
    'digibyte_test': {
        'BECH32_HRP': 'dgbt',
        'NETWORK_NAME': 'digibyte',
        'P2PKH_PREFIX': b'~',
        'P2PK_PREFIX': None,
        'P2SH_PREFIX': b'\x8c',
        'SEGWIT': True,
        'SUBNET_NAME': 'test',
        'SYMBOL': 'tDGB',
    },
    'digibyte_reg': {
        'BECH32_HRP': 'dgbrt',
        'NETWORK_NAME': 'digibyte',
        'P2PKH_PREFIX': b'~',
        'P2PK_PREFIX': None,
        'P2SH_PREFIX': b'\x8c',
        'SEGWIT': True,
        'SUBNET_NAME': 'reg',
        'SYMBOL': 'rDGB',
    },
    'groestlcoin_main': {
        'BECH32_HRP': 'grs',
        'NETWORK_NAME': 'groestlcoin',
        'P2PKH_PREFIX': b'$',
        'P2PK_PREFIX': None,
        'SEGWIT': True,
        'SEGWIT_ENCODER': 'riemann.encoding.base58',
        'SUBNET_NAME': 'main',
        'SYMBOL': 'GRS',
    },
    'groestlcoin_test': {
        'BECH32_HRP': 'tgrs',
        'NETWORK_NAME': 'groestlcoin',
        'P2PKH_PREFIX': b'o',
        'P2PK_PREFIX': None,
        'P2SH_PREFIX': b'\xc4',
        'SEGWIT': True,
        'SEGWIT_ENCODER': 'riemann.encoding.base58',
        'SUBNET_NAME': 'test',
        'SYMBOL': 'tGRS',
    },
    'groestlcoin_reg': {
        'BECH32_HRP': 'grsrt',
        'NETWORK_NAME': 'groestlcoin',
        'P2PKH_PREFIX': b'o',
        'P2PK_PREFIX': None,
        'P2SH_PREFIX': b'\xc4',
        'SEGWIT': True,
        'SEGWIT_ENCODER': 'riemann.encoding.base58',
        'SUBNET_NAME': 'reg',
        'SYMBOL': 'rGRS',
    },
    'monacoin_main': {
        'NETWORK_NAME': 'monacoin',
        'P2PKH_PREFIX': b'2',
        'P2PK_PREFIX': None,
        'P2SH_PREFIX': b'7',
        'SEGWIT': True,
        'SEGWIT_ENCODER': 'riemann.encoding.base58',
        'SUBNET_NAME': 'main',
        'SYMBOL': 'MONA',
    },
    'monacoin_test': {
        'NETWORK_NAME': 'monacoin',
        'P2PKH_PREFIX': b'o',
        'P2PK_PREFIX': None,
        'P2SH_PREFIX': b'\xc4',
        'SEGWIT': True,
        'SEGWIT_ENCODER': 'riemann.encoding.base58',
        'SUBNET_NAME': 'test',
        'SYMBOL': 'tMONA',
    },
    'monacoin_reg': {
        'NETWORK_NAME': 'monacoin',
        'P2PKH_PREFIX': b'o',
        'P2PK_PREFIX': None,
        'P2SH_PREFIX': b'\xc4',
        'SEGWIT': True,
        'SEGWIT_ENCODER': 'riemann.encoding.base58',
        'SUBNET_NAME': 'reg',
        'SYMBOL': 'rMONA',
    },
    'navcoin_main': {
        'NETWORK_NAME': 'navcoin',
        'P2PKH_PREFIX': b'5',
        'P2PK_PREFIX': None,
        'P2SH_PREFIX': b'U',
        'SEGWIT': True,
        'SEGWIT_ENCODER': 'riemann.encoding.base58',
        'SUBNET_NAME': 'main',
        'SYMBOL': 'NAV',
    },
    'navcoin_test': {
        'NETWORK_NAME': 'navcoin',
        'P2PKH_PREFIX': b'6',
        'P2PK_PREFIX': None,
        'P2SH_PREFIX': b'V',
        'SEGWIT': True,
        'SEGWIT_ENCODER': 'riemann.encoding.base58',
        'SUBNET_NAME': 'test',
        'SYMBOL': 'tNAV',
    },
    'navcoin_reg': {
        'NETWORK_NAME': 'navcoin',
        'P2PKH_PREFIX': b'\x14',
        'P2PK_PREFIX': None,
        'P2SH_PREFIX': b'`',
        'SEGWIT': True,
        'SEGWIT_ENCODER': 'riemann.encoding.base58',
        'SUBNET_NAME': 'reg',
        'SYMBOL': 'rNAV',
    },
    'syscoin_main': {
        'NETWORK_NAME': 'syscoin',
        'P2PKH_PREFIX': b'?',
        'P2PK_PREFIX': None,
        'SEGWIT': True,
        'SEGWIT_ENCODER': 'riemann.encoding.base58',
        'SUBNET_NAME': 'main',
        'SYMBOL': 'SYS',
    },
    'syscoin_test': {
        'NETWORK_NAME': 'syscoin',
        'P2PKH_PREFIX': b'A',
        'P2PK_PREFIX': None,
        'P2SH_PREFIX': b'\xc4',
        'SEGWIT': True,
        'SEGWIT_ENCODER': 'riemann.encoding.base58',
        'SUBNET_NAME': 'test',
        'SYMBOL': 'tSYS',
    },
    'syscoin_reg': {
        'NETWORK_NAME': 'syscoin',
        'P2PKH_PREFIX': b'A',
        'P2PK_PREFIX': None,
        'P2SH_PREFIX': b'\xc4',
        'SEGWIT': True,
        'SEGWIT_ENCODER': 'riemann.encoding.base58',
        'SUBNET_NAME': 'reg',
        'SYMBOL': 'rSYS',
    },
    'vertcoin_main': {
        'BECH32_HRP': 'vtc',
        'NETWORK_NAME': 'vertcoin',
        'P2PKH_PREFIX': b'G',
        'P2PK_PREFIX': None,
        'SEGWIT': True,
        'SUBNET_NAME': 'main',
        'SYMBOL': 'VTC',
    },
    'vertcoin_test': {
        'BECH32_HRP': 'tvtc',
        'NETWORK_NAME': 'vertcoin',
        'P2PKH_PREFIX': b'J',
        'P2PK_PREFIX': None,
        'P2SH_PREFIX': b'\xc4',
        'SEGWIT': True,
        'SUBNET_NAME': 'test',
        'SYMBOL': 'tVTC',
    },
    'vertcoin_reg': {
        'BECH32_HRP': 'bcrt',
        'NETWORK_NAME': 'vertcoin',
        'P2PKH_PREFIX': b'o',
        'P2PK_PREFIX': None,
        'P2SH_PREFIX': b'\xc4',
        'SEGWIT': True,
        'SUBNET_NAME': 'reg',
        'SYMBOL': 'rVTC',
    },
    'bitcoin_private_main': {
        'FORKID': 42,
        'NETWORK_NAME': 'bitcoin_private',
        'P2PKH_PREFIX': b'\x13%',
        'P2PK_PREFIX': None,
        'P2SH_PREFIX': b'\x13\xaf',
        'SUBNET_NAME': 'main',
        'SYMBOL': 'BCTP',
    },
    'bitcoin_private_test': {
        'FORKID': 42,
        'NETWORK_NAME': 'bitcoin_private',
        'P2PKH_PREFIX': b'\x19W',
        'P2PK_PREFIX': None,
        'P2SH_PREFIX': b'\x19\xe0',
        'SUBNET_NAME': 'test',
        'SYMBOL': 'tBTCP',
    },
    'bitcoin_private_reg': {
        'FORKID': 42,
        'NETWORK_NAME': 'bitcoin_private',
        'P2PKH_PREFIX': b'\x19W',
        'P2PK_PREFIX': None,
        'P2SH_PREFIX': b'\x19\xe0',
        'SUBNET_NAME': 'reg',
        'SYMBOL': 'rBCTP',
    },
    'verge_main': {
        'NETWORK_NAME': 'verge',
        'P2PKH_PREFIX': b'\x1e',
        'P2PK_PREFIX': None,
        'P2SH_PREFIX': b'!',
        'SUBNET_NAME': 'main',
        'SYMBOL': 'XVG',
    },
    'verge_test': {
        'NETWORK_NAME': 'verge',
        'P2PKH_PREFIX': b's',
        'P2PK_PREFIX': None,
        'P2SH_PREFIX': b'\xc6',
        'SUBNET_NAME': 'test',
        'SYMBOL': 'tXVG',
    },
    'verge_reg': {
        'NETWORK_NAME': 'verge',
        'P2PKH_PREFIX': b's',
        'P2PK_PREFIX': None,
        'P2SH_PREFIX': b'\xc6',
        'SUBNET_NAME': 'reg',
        'SYMBOL': 'rXVG',
    },
}
