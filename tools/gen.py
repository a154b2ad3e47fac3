"""Writes properties.jsonl and MANIFEST.json from the tables in this file.

python3 tools/gen.py (run after editing the tables; not part of any check)
"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []


def prop(id, title, statement, over, text, why, files, mechanism,
         observe=None):
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {
            'files': files,
            'mechanism': [{'name': n, 'where': w} for n, w in mechanism],
            **({'observe_at': observe} if observe else {})}})


prop('C01', 'Integer and byte-string conversions are exact inverses',
     'Converting a non-negative integer to little- or big-endian bytes, '
     'minimal or padded to a fixed width, and back gives the integer again; '
     'the minimal form has no superfluous leading byte and the padded form '
     'has exactly the requested width. A number too large for the width is '
     'refused instead of being truncated.',
     ['inputs'], 'every integer in range, every width, every byte string',
     'The tests convert a handful of constants; the guarantee is for every '
     'integer and width, in particular around powers of 256.',
     ['riemann/utils.py'],
     [('integer/bytes conversions', 'riemann/utils.py: i2le, i2le_padded, '
       'le2i, i2be, i2be_padded, be2i, change_endianness')])
prop('C02', 'Variable-length integers follow CompactSize on every network',
     'Every number below 2^64 has exactly its compact CompactSize encoding, '
     'numbers outside are refused, and parsing an encoding followed by any '
     'bytes gives the number and consumes exactly that encoding. Truncated '
     'encodings are always refused; non-compact ones are refused on the '
     'networks that require compactness and keep their wire form elsewhere.',
     ['inputs', 'configurations'],
     'every number, every byte string, every supported network',
     'Tests use about ten numbers on the default network; the boundaries '
     '(0xfc, 0xffff, 2^32), truncation and the per-network compactness rule '
     'cannot be sampled.',
     ['riemann/tx/shared.py'],
     [('VarInt', 'riemann/tx/shared.py: VarInt.__init__, '
       'VarInt.from_bytes')])
prop('C03', 'Script text and script bytes translate into each other exactly',
     'Serializing a script of opcodes and data pushes emits the opcode bytes '
     'of the selected network and the shortest push for each data item, and '
     'deserializing those bytes gives back the same tokens. Unknown tokens, '
     'unsupported opcodes and truncated pushes are refused rather than '
     'silently altered.',
     ['inputs', 'configurations'],
     'every script (any length, any data), every opcode byte, every network',
     'Tests run a few fixed scripts; the property quantifies over all '
     'opcode/data sequences and all push-length boundaries.',
     ['riemann/script/serialization.py', 'riemann/script/opcodes.py'],
     [('script codec', 'riemann/script/serialization.py: serialize, '
       'deserialize, hex_serialize, hex_deserialize')])
prop('C04', 'Output scripts are exactly the standard templates',
     'For any public key, script or data, the produced output script is the '
     'byte-exact P2PKH, P2SH, P2WPKH, P2WSH or OP_RETURN template around the '
     'right hash of that key, script or data on the selected network. '
     'Requests the network cannot honour (segwit where there is none, '
     'oversized data) are refused.',
     ['inputs', 'configurations'],
     'every key and script, every data length, every supported network',
     'Tests compare a few vectors on a few networks; a wrong byte for a '
     'particular length or network goes unnoticed.',
     ['riemann/script/serialization.py', 'riemann/simple.py',
      'riemann/tx/tx_builder.py'],
     [('output script builders', 'riemann/tx/tx_builder.py: '
       'make_sh_script_pubkey .. make_op_return_output')])
prop('C05', 'Addresses and output scripts determine each other per network',
     'Encoding an output script as an address and decoding that address '
     'gives back the same script on every network and for every supported '
     'address kind, and the hash recovered from an address is the one it was '
     'made from. Addresses of another network or kind and scripts with no '
     'address form are refused.',
     ['inputs', 'configurations'],
     'every hash, every script, every network',
     'Tests use fixed addresses on few networks; the statement is for every '
     '20/32-byte hash and each of 72 networks, whose prefixes differ in '
     'length and collide in places.',
     ['riemann/encoding/addresses.py'],
     [('address codec', 'riemann/encoding/addresses.py: to_output_script, '
       'from_output_script, parse_hash, make_*_address')])
prop('C06', 'Base58Check encoding is a bijection protected by its checksum',
     'Base58Check-encoding any byte string and decoding the result returns '
     'the same bytes including leading zeros, and decoding succeeds only if '
     'the last four bytes are the network checksum of the rest. Text with '
     'characters outside the alphabet is refused.',
     ['inputs', 'configurations'], 'every byte string, every text',
     'Tests use some addresses; leading zeros and length effects depend on '
     'all bytes of the payload.',
     ['riemann/encoding/base58.py'],
     [('base58check', 'riemann/encoding/base58.py: encode, decode, '
       'encode_with_checksum, decode_with_checksum')])
prop('C07', 'Bech32 addresses round-trip and pass only with valid checksum',
     'Encoding a witness version and program as Bech32 gives a string whose '
     'checksum verifies and which decodes to the same version and program, '
     'for each network prefix. Decoding refuses wrong prefixes, mixed case, '
     'bad characters, bad padding and any string whose checksum does not '
     'verify.',
     ['inputs', 'configurations'],
     'every version and program of valid length, every network prefix, '
     'every text',
     'Tests run published vectors; checksum linearity and regrouping of '
     'bits must hold for all programs.',
     ['riemann/encoding/bech32.py'],
     [('bech32', 'riemann/encoding/bech32.py: encode, decode, '
       'segwit_encode, segwit_decode, convertbits, bech32_polymod')])
prop('C08', 'Cash addresses round-trip and pass only with valid checksum',
     'Encoding a payload of any supported size as a cash address gives a '
     'string whose checksum verifies under the network prefix and which '
     'decodes to the same payload. Decoding refuses another prefix, '
     'characters outside the alphabet and any checksum mismatch.',
     ['inputs', 'configurations'],
     'every payload, every network with a cash address prefix, every text',
     'Tests use fixed addresses; the bit regrouping and checksum must hold '
     'for all payloads.',
     ['riemann/encoding/cashaddr.py'],
     [('cashaddr', 'riemann/encoding/cashaddr.py: encode, decode, '
       'convertbits, calculate_checksum, verify_checksum')])
prop('C09', 'Transaction components have the wire layout and validated fields',
     'Outpoints, inputs, outputs, witness items and input witnesses '
     'serialize to exactly the protocol layout of their fields, and refuse '
     'fields of the wrong type or length. Parsing a canonical encoding, '
     'followed by any bytes, gives a component with the same fields and '
     'bytes, and a truncated encoding is refused.',
     ['inputs'],
     'every field value and every list length; every truncation point',
     'Tests parse a few real transactions; script lengths across the '
     'CompactSize boundaries, arbitrary script bytes and truncation at every '
     'offset are out of their reach.',
     ['riemann/tx/tx.py', 'riemann/tx/shared.py'],
     [('components', 'riemann/tx/tx.py: Outpoint, TxIn, TxOut, '
       'WitnessStackItem, InputWitness')])
prop('C10', 'Transactions parse and serialize as inverses',
     'A transaction built from any valid version, flag, inputs, outputs, '
     'witnesses and lock time serializes to exactly the legacy or segwit '
     'wire format, and parsing those bytes or their hex yields a transaction '
     'with the same bytes and fields (up to where a script_sig is split; '
     'output scripts of at most 251 bytes). Inconsistent combinations '
     '(no inputs, witness count mismatch, witnesses without a flag) are '
     'refused.',
     ['inputs'],
     'any number of inputs, outputs and witness items, any field values',
     'Tests round-trip a few real transactions with one or two inputs; '
     'counts past the one-byte CompactSize range and arbitrary witness '
     'shapes are never exercised.',
     ['riemann/tx/tx.py'],
     [('transaction', 'riemann/tx/tx.py: Tx.__init__, Tx.from_bytes, '
       'Tx.from_hex')])
prop('C11', 'Transaction ids commit to exactly the right bytes',
     'The transaction id is the double hash of the serialization without '
     'flag and witnesses and the witness transaction id is the double hash '
     'of the full serialization, both given in both byte orders. Changing a '
     'witness therefore never changes the transaction id, and any change of '
     'another field changes what is hashed.',
     ['inputs'], 'every transaction of any size, with or without witnesses',
     'Tests compare a few known ids; they cannot show that no other byte '
     'enters or leaves the hashed message for other shapes.',
     ['riemann/tx/tx.py'],
     [('ids', 'riemann/tx/tx.py: Tx.__init__, Tx.no_witness')])
prop('C12', 'Legacy signature digests commit to exactly the BIP-143-less '
     'message',
     'For every transaction, input index, script code and supported '
     'signature-hash flag the legacy digest is the double hash of exactly '
     'the message Bitcoin defines: other inputs are blanked or dropped, '
     'outputs are all kept or cut after the signed index with blanks before '
     'it, and the 4-byte flag is appended. Requests without a defined '
     'message (an index past the last input, SIGHASH_SINGLE without the '
     'matching output, unsupported flags, scripts over 1650 bytes) are '
     'refused.',
     ['inputs'],
     'any number of inputs and outputs, every index, script and flag',
     'Tests use small fixed transactions; the mapping over all inputs and '
     'outputs by index must hold for every count and position.',
     ['riemann/tx/tx.py'],
     [('legacy digest', 'riemann/tx/tx.py: sighash_all, sighash_single, '
       'sighash_none, _sighash_prep, _adjusted_script_sigs ..')])
prop('C13', 'Segwit and fork-id digests follow BIP-143',
     'For every transaction, index, amount, script code and flag, the '
     'witness digest (and the fork-id digest on networks with a fork id) is '
     'the double hash of the BIP-143 message, whose previous-output, '
     'sequence and output hashes are zeroed exactly for the flags that '
     'exclude them. The digest commits to the spent amount and, on fork-id '
     'networks, to the fork id.',
     ['inputs', 'configurations'],
     'any transaction shape, every index, amount, flag; every network',
     'Tests check the BIP vectors; each flag/index/count combination selects '
     'different message parts, which samples do not cover.',
     ['riemann/tx/tx.py'],
     [('segwit digest', 'riemann/tx/tx.py: segwit_sighash, '
       '_hash_prevouts, _hash_sequence, _hash_outputs, '
       '_forkid_sighash_adjustment')])
prop('C14', 'Zcash signature digests follow ZIP-143 and ZIP-243',
     'For every Overwinter or Sapling transaction, signed input and flag the '
     'digest is the personalised BLAKE2b hash of exactly the message of '
     'ZIP-143/ZIP-243, with each sub-hash zeroed exactly when its part is '
     'absent or excluded by the flag; Sprout digests are the Bitcoin ones '
     'extended by joinsplit data. An index without the input or output it '
     'needs is refused.',
     ['inputs', 'configurations'],
     'any number of inputs, outputs, joinsplits, shielded spends and '
     'outputs, every index and flag',
     'Tests have a handful of published vectors; presence/absence of each of '
     'five lists times flags times indices is not sampled.',
     ['riemann/tx/overwinter.py', 'riemann/tx/sapling.py',
      'riemann/tx/sprout.py'],
     [('zcash digests', 'riemann/tx/{overwinter,sapling,sprout}.py: '
       'sighash*, _hash_*')])
prop('C15', 'Zcash transactions and shielded parts serialize and parse '
     'exactly',
     'Sprout, Overwinter and Sapling transactions and their joinsplits and '
     'shielded spends/outputs serialize to the protocol layout of their '
     'fields, parsing those bytes gives the same fields and bytes (output '
     'scripts of at most 251 bytes), and the '
     'transaction id is the hash of those bytes. Fields of the wrong type, '
     'length or consensus range are refused.',
     ['inputs', 'configurations'],
     'any number of each part, any field values, both proof systems',
     'Tests parse a few real transactions; offsets after lists of other '
     'lengths (for instance past 252 elements) are never reached.',
     ['riemann/tx/sprout.py', 'riemann/tx/overwinter.py',
      'riemann/tx/sapling.py', 'riemann/tx/zcash_shared.py'],
     [('zcash codec', 'riemann/tx/*.py: SproutTx, OverwinterTx, SaplingTx, '
       'SproutJoinsplit, SaplingJoinsplit, SaplingShieldedSpend, '
       'SaplingShieldedOutput')])
prop('C16', 'Decred transactions, ids and digests follow the Decred protocol',
     'Decred inputs, outputs, witnesses and transactions serialize to the '
     'Decred layout of their fields; outpoints, inputs and outputs (scripts '
     'of at most 251 bytes) parse back to the same fields. Ids and '
     'signature digests are the BLAKE-256 hashes of exactly the prefix and '
     'witness messages Decred defines for each flag. Malformed fields, '
     'truncated encodings and indices without input or output are '
     'refused.',
     ['inputs', 'configurations'],
     'any number of inputs, outputs and witnesses, every index, script and '
     'flag',
     'Tests have few Decred vectors with few inputs; blanking and cutting '
     'rules per index and flag are not sampled.',
     ['riemann/tx/decred.py', 'riemann/utils.py'],
     [('decred', 'riemann/tx/decred.py: DecredTx, DecredTxIn, DecredTxOut, '
       'DecredInputWitness, DecredWitnessTx..')])
prop('C17', 'Transactions are immutable values and copies change only what '
     'is asked',
     'Constructed components and transactions reject attribute assignment '
     'and in-place modification and share no list with their caller, so no '
     'later action changes their bytes or fields. Copying with some fields '
     'replaced gives a valid object equal to the original in every other '
     'field.',
     ['inputs', 'histories'],
     'every object of every class, every attribute, every subset of '
     'replaced fields',
     'Tests try one or two attributes; the guarantee is for all fields and '
     'all objects.',
     ['riemann/tx/shared.py', 'riemann/tx/tx.py', 'riemann/tx/decred.py',
      'riemann/tx/sapling.py', 'riemann/tx/overwinter.py',
      'riemann/tx/sprout.py'],
     [('immutability', 'riemann/tx/shared.py: ByteData'),
      ('copy', 'riemann/tx/*.py: copy')])
prop('C18', 'Fee calculation equals inputs minus outputs',
     'For every transaction and list of input values the calculated fee is '
     'the sum of the input values minus the sum of all output values, '
     'including the transparent and shielded value transfers of Zcash '
     'transactions.',
     ['inputs'], 'any number of inputs, outputs and joinsplits, all values',
     'Tests add up a few numbers; the sum must hold for all counts and '
     'values.',
     ['riemann/tx/tx.py', 'riemann/tx/sprout.py', 'riemann/tx/overwinter.py',
      'riemann/tx/sapling.py', 'riemann/tx/decred.py'],
     [('fee', 'riemann/tx/*.py: calculate_fee')])
prop('C19', 'The BLAKE-256 implementation computes BLAKE-256',
     'For every message, however split over updates, the digest is the '
     'BLAKE-256 digest of the specification with 14 rounds. The block '
     'compression, padding and bit counter follow the specification for '
     'every message length.',
     ['inputs', 'histories'], 'every message length and content, every '
     'sequence of updates',
     'Tests hash a few strings; the padding has distinct cases by length '
     'modulo 64 and the counter rule for full padding blocks.',
     ['riemann/blake256.py'],
     [('blake256', 'riemann/blake256.py: BLAKE._compress, BLAKE.update, '
       'BLAKE.final, blake_hash')])
prop('C20', 'Network selection is total, exclusive and gates behaviour',
     'Selecting a supported network makes exactly its parameters govern '
     'every operation until the next selection, selecting an unknown one '
     'fails and changes nothing, and no other operation changes the '
     'selection or the networks. Operations a network does not support are '
     'refused there.',
     ['configurations', 'histories'],
     'every supported network, every name, every sequence of selections',
     'Tests switch between a few networks; the 72 networks are not '
     'enumerated and absence of other writes is not observable by samples.',
     ['riemann/__init__.py', 'riemann/networks/networks.py'],
     [('registry', 'riemann/__init__.py: select_network, '
       'get_current_network, get_current_network_name')])
prop('C21', 'Standardness checks classify transactions correctly',
     'A transaction is reported standard exactly if its version is 1 or 2, '
     'its weight at most 400000, every script_sig push-only, every output of '
     'a standard type (P2PKH, P2SH, segwit, P2PK, multisig of up to 3 keys, '
     'valueless OP_RETURN with pushes of at most 80 bytes in all) and no '
     'dust, and at most one a data carrier. The answer depends on opcodes, '
     'not on how data bytes look.',
     ['inputs'], 'every script and transaction',
     'This module has no tests at all.',
     ['riemann/networks/standard.py'],
     [('standardness', 'riemann/networks/standard.py')])
prop('C22', 'Builders produce the transaction the caller described',
     'The builder and simple interfaces return, on each network, a '
     'transaction of that network class whose fields are the given ones in '
     'the protocol encoding (amounts, sequences, versions, lock times, '
     'outpoints in wire order), with an empty witness per unsigned input. '
     'Values that do not fit their field are refused.',
     ['inputs', 'configurations'],
     'all amounts, indices, sequences, lists of inputs and outputs; every '
     'network',
     'Tests build a few transactions on few networks; byte order, widths '
     'and per-network dispatch are not sampled across values.',
     ['riemann/tx/tx_builder.py', 'riemann/simple.py'],
     [('builders', 'riemann/tx/tx_builder.py, riemann/simple.py')])

P[11]['title'] = 'Legacy signature digests commit to exactly Bitcoin\'s message'

TECH = ('contract-based deductive verification of the Python source '
        '(symbolic execution of the AST of /repo against theorems, loop '
        'invariants by induction, z3)')

# property -> (level, note)
CLAIMED = {}
exec(open(os.path.join(ROOT, 'tools', 'claimed.py')).read())


def main():
    ids = [p['id'] for p in P]
    assert len(ids) == len(set(ids))
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(p) + '\n')
    import re
    src = {}
    d = os.path.join(ROOT, 'theorems')
    for n in sorted(os.listdir(d)):
        if n.endswith('.py'):
            t = open(os.path.join(d, n)).read()
            for m in re.finditer(r"@theorem\('(C\d+)'(?:.|\n)*?\)\ndef (\w+)",
                                 t):
                src.setdefault(m.group(1), []).append(
                    '%s.%s' % (m.group(1), m.group(2)))
    checks = []
    na = []
    for p in P:
        i = p['id']
        if i in CLAIMED:
            level, note = CLAIMED[i]
            checks.append({
                'property': i,
                'quick_cmd': 'python3-vt check.py %s --tier quick' % i,
                'thorough_cmd': 'python3-vt check.py %s --tier thorough' % i,
                'technique': TECH, 'level': level, 'level_note': note,
                'theorems': src.get(i, []),
                'evidence_file': 'evidence/%s.json' % i})
        else:
            na.append({'property': i, 'reason': NOT_CLAIMED.get(
                i, 'not yet under contract: work in progress')})
    m = {'version': 1, 'setup_cmd': 'python3-vt setup.py', 'checks': checks,
         'not_applicable': na,
         'notes': 'See DESIGN.md. No hooks in /repo are needed: the verifier '
                  'reads the source of /repo on every run.'}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
