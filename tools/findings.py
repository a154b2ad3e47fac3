"""Writes known-findings.json (run by hand; not part of any check)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = []


def fixed(commit, prop, text):
    F.append({'property': prop, 'id': 'fixed-' + commit, 'status': 'fixed',
              'text': 'fixed: property=%s %s %s' % (prop, commit, text)})


def known(prop, id, text):
    F.append({'property': prop, 'id': id, 'status': 'known', 'text': text})


fixed('8ac51db', 'C02', 'VarInt.from_bytes accepted truncated encodings '
      '(fd01, empty) and refused some compact 8-byte forms')
fixed('1a858a2', 'C02', 'VarInt.from_bytes lost the wire form of non-compact '
      'encodings, so that parsers resumed at the wrong offset')
fixed('1534f2d', 'C09', 'TxOut and WitnessStackItem parsers accepted '
      'truncated contents')
fixed('7b16e8e', 'C10', 'parsing an input whose script_sig ends in a push '
      'changed the bytes of the script')
fixed('3c6c82b', 'C17', 'TxIn.from_bytes(bytearray) kept slices of the '
      'caller\'s mutable buffer')
fixed('fe0a371', 'C12', 'a transaction without the segwit flag but with an '
      'empty witness list was signed as a witness transaction')
fixed('f160756', 'C12', 'SIGHASH_SINGLE digests kept the wrong number of '
      'outputs')
fixed('86ff910', 'C16', 'Decred ANYONECANPAY digests committed to the '
      'wrong input')
fixed('c201bc3', 'C15', 'parsers mis-placed joinsplits after a list whose '
      'count takes more than one byte')
fixed('3d0c8f6', 'C14', 'SIGHASH_SINGLE with an index past the last output '
      'was not refused')
fixed('b600224', 'C14', 'Sapling sighash_all and sighash_single ignored '
      'anyone_can_pay')
fixed('85a06dc', 'C15', 'SproutTx.from_bytes could not parse version 1')
fixed('5175ed0', 'C14', 'Sprout SIGHASH_SINGLE and ANYONECANPAY failed '
      'without joinsplits')
fixed('b42ceae', 'C15', 'SproutTx without joinsplits required or kept a '
      'joinsplit key and signature')
fixed('dad6cf9', 'C22', 'make_tx passed the Sprout version as a number')
fixed('0f6c45c', 'C22', 'make_tx failed for Sapling transactions without '
      'shielded parts and for negative value balances')
fixed('9eb94d4', 'C22', 'builders made invalid Decred outputs and '
      'transactions')
fixed('55a3389', 'C03', 'deserialize accepted truncated PUSHDATA1 and '
      'PUSHDATA2 pushes')
fixed('7e10922', 'C05', 'from_output_script accepted scripts that only start '
      'and end like a template')
fixed('52140c5', 'C05', 'to_output_script turned unknown witness versions '
      'into version 0 scripts')
fixed('31d020d', 'C05', 'parse_hash failed on P2WSH addresses and accepted '
      'unknown witness programs')
fixed('10f4094', 'C08', 'cashaddr.decode accepted foreign prefixes and '
      'characters outside the alphabet')
fixed('adfaf93', 'C07', 'bech32.decode failed with TypeError on malformed '
      'addresses')
fixed('afa8207', 'C21', 'is_push_only judged data bytes as opcodes')
fixed('841ec12', 'C21', 'outputs other than OP_RETURN counted as data '
      'carriers; P2PK keys were not found')
fixed('a4b92d6', 'C16', 'DecredTxOut.from_bytes accepted a truncated script')
fixed('f6ff7dd', 'C17', 'DecredTx kept the caller\'s mutable lists')
fixed('83a0686', 'C11', 'legacy transactions had no wtx_id_le')
fixed('8b4601e', 'C14', 'Sprout digests of transactions with joinsplits left '
      'out the null joinsplit signature: transaction '
      '67b17e92db8c6480df9030177fd5b98120d0455fd86c3bcd27de2ee7db6cdd1a '
      'verifies under Ed25519 only with it')
fixed('a77e49f', 'C17', 'fields of constructed objects could be deleted')
fixed('19297fa', 'C17', 'a field given as a bytearray stayed the caller\'s '
      'buffer and changed with it')

fixed('dd328e3', 'C05', 'witness scripts and keys got cash addresses, which '
      'stand for other scripts')
fixed('f0f97d4', 'C05', 'to_output_script accepted Base58Check texts with a '
      'witness program or a cash address version byte, among them Bitcoin '
      'addresses on the Bitcoin Cash test network')
fixed('072cb41', 'C05', 'parse_hash accepted payloads of any length and '
      'witness programs in Base58Check')

fixed('fc70c7f', 'C08', 'cash addresses with a payload whose length is a '
      'multiple of five (24- and 64-byte hashes) decoded to a payload '
      'without its last byte, and padding bits were not checked')

fixed('5231bc1', 'C21', 'a transaction of version 0x00000101 passed for version 1')
fixed('54d0d0a', 'C21', 'is_push_only raised on scripts that cannot be parsed')
fixed('0fc1833', 'C21', 'a script_sig with OP_1NEGATE was reported as not push-only (Bitcoin counts it as a push)')
fixed('dc5d660', 'C21', 'is_op_return limited the characters of the script text, so that carriers of 35 bytes were refused, and failed on empty scripts')
fixed('9938105', 'C21', 'OP_13 counted as 3 in multisig scripts, OP_0 and data as a number of signatures; scripts such as OP_1 OP_CHECKSIG raised')
fixed('21f69b6', 'C21', 'every transaction with an OP_RETURN output was reported as non-standard')

known('C14', 'C14-overwinter-acp',
      'OverwinterTx.sighash_all and sighash_single ignore anyone_can_pay='
      'True and return the digest without ANYONECANPAY (a test of the '
      'repository passes the flag in that position and pins the result)')

known('C20', 'C20-segwit-tx',
      'tx.Tx accepts the segwit flag (and witnesses) on networks without '
      'segwit, e.g. tx.Tx(version, flag 0001, ...) on dogecoin_main, '
      'although the builders refuse witness outputs and addresses there')

with open(os.path.join(ROOT, 'known-findings.json'), 'w') as f:
    json.dump({'findings': F}, f, indent=1)
    f.write('\n')
