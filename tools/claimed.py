NOTE = ('Every obligation is generated from the current source of /repo and '
        'discharged for all inputs within the stated quantifier, with no '
        'bound on list lengths or loop iterations. ')
CLAIMED = {
    'C01': ('proof', NOTE + 'Trusts the verifier and its model of Python '
            'integers and bytes.'),
    'C02': ('proof', NOTE + 'All 72 networks.'),
    'C03': ('proof', NOTE + 'All 72 networks. The words that serialize '
            'refuses are a table of examples; the bytes and truncated pushes '
            'that deserialize refuses are all of them, after any script.'),
    'C04': ('proof', NOTE + 'Hash functions uninterpreted; the serialised '
            'form of script text by an unknown function (C03).'),
    'C06': ('proof', NOTE + 'That the steps proved for to_long and from_long make them inverse bijections is an induction stated in the theorem file, not checked by a tool.'),
    'C05': ('proof', NOTE + 'The text encodings stand for their contracts '
            '(an encoding decodes to the bytes it was made from; decoding '
            'other text gives unknown bytes or fails), see C06-C08. Up to '
            'a Bech32 text being Base58Check by accident.'),
    'C07': ('proof', NOTE + 'Texts and programs of every length an address '
            'can have (a text has at most 90 characters); every prefix of 2 '
            'to 5 characters. Bits are affine forms over GF(2). Refusal of '
            'characters and of mixed case: in the quick tier for texts of '
            'eight lengths, in the thorough tier for all lengths.'),
    'C08': ('proof', NOTE + 'Payloads of 1 to 65 bytes (the sizes of the '
            'specification are 21 to 65) and texts of up to 112 characters. '
            'Bits are affine forms over GF(2).'),
    'C10': ('proof', NOTE + 'Parsing is shown for inputs and outputs whose '
            'scripts the parser supports (script_sig up to 1650 bytes, output '
            'scripts up to 251).'),
    'C11': ('proof', NOTE + 'Hash functions uninterpreted. Not on Decred, '
            'whose transactions are another class.'),
    'C09': ('proof', NOTE + 'Hash functions uninterpreted.'),
    'C12': ('proof', NOTE + 'Hash functions uninterpreted; script codes of '
            'at most 1650 bytes, the most an input accepts.'),
    'C13': ('proof', NOTE + 'Hash functions uninterpreted; all networks, '
            'with and without a fork id.'),
    'C15': ('proof', NOTE + 'Hash functions uninterpreted. Parsing is shown '
            'for canonical encodings of at most 100000 bytes (larger ones '
            'are shown to be refused).'),
    'C14': ('proof', NOTE + 'Hash functions uninterpreted. Transactions and '
            'modified copies of at most 100000 bytes; sighash_all and '
            'sighash_single of Overwinter ignore anyone_can_pay (known '
            'finding).'),
    'C16': ('proof', NOTE + 'BLAKE-256 uninterpreted (see C19). Digests for '
            'transactions with a witness per input; SIGHASH_SINGLE for '
            'outputs of script version 0, the only one in use.'),
    'C18': ('proof', NOTE + 'For the transactions the constructors accept.'),
    'C17': ('proof', NOTE + 'Modification by assignment, deletion, '
            'augmented assignment and item assignment, and through the '
            'caller\'s lists and byte buffers; not by reflection that '
            'bypasses the class (object.__setattr__, __dict__). copy of the '
            'larger transaction classes is verified against their '
            'constructor as a contract.'),
    'C19': ('proof', NOTE + 'Messages given as bytes, shorter than 2**56 '
            'bytes in all; no salt. The block function is decided in a '
            'domain of sums modulo 2**32 over GF(2) bits; update and final '
            'are verified against its contract. That the proved steps (an '
            'update that fits, a longer update as two) make an induction '
            'over the length is said in the theorem file, not mechanised.'),
    'C20': ('proof', NOTE + 'Selection, parameters and gates on all 72 '
            'networks; that nothing else writes global state, keeps state '
            'between calls or binds the network at import is a syntactic '
            'frame rule over every function (dv/effects.py). The expected '
            'parameters are a table pinned at the commit verified. Segwit '
            'transactions on networks without segwit: known finding.'),
    'C21': ('proof', NOTE + 'check_is_standard_tx and check_is_standard are '
            'verified against is_push_only, is_op_return and '
            'is_standard_output_type as functions of the bytes; these are '
            'verified by themselves. Not on Decred. Scripts with pushes of '
            'no data (4c00) are outside the push-only theorems.'),
    'C22': ('proof', NOTE + 'Transaction builders are verified against the '
            'constructors as contracts (C10, C15, C16 are about those); '
            'address and script text is resolved by an unknown function '
            '(C03, C05). Not make_script_sig, and not a Sprout transaction '
            'built without a joinsplit list.'),
}
NOT_CLAIMED = {}
