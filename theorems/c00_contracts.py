"""Contracts of functions of riemann, used by the proofs of their callers."""
from dv.api import contract, weak_contract
from riemann import blake256
from riemann.tx import shared, tx
from theorems.lib import (
    cs, starts_cs, starts_txin, cs_value, split_at, starts_witness,
    witness_items, blake_block, blake_final, as_made, unspecified, word_at)


def varint_pre(self, number, length=None):
    return [0 <= number, number < 2 ** 64,
            [length is None, length == 0, length == len(cs(number))]]


@contract('riemann.tx.shared.VarInt.__init__', pre=varint_pre,
          proof=['C02.varint_contract', 'C02.varint_copy_contract'])
def varint_init(self, number, length=None):
    shared.ByteData.__init__(self)
    self += cs(number)
    self.number = number
    self._make_immutable()


def varint_parse_pre(cls, byte_string):
    return [cls is shared.VarInt, starts_cs(byte_string)]


@contract('riemann.tx.shared.VarInt.from_bytes', pre=varint_parse_pre,
          proof=['C02.varint_parse_contract'])
def varint_from_bytes(cls, byte_string):
    return shared.VarInt(cs_value(byte_string))


# ----------------------------------------------------- scripts, weakly

PARSE_ERRORS = (IndexError, ValueError, NotImplementedError)

DESER = 'riemann.script.serialization.deserialize'
HEXDESER = 'riemann.script.serialization.hex_deserialize'
SER = 'riemann.script.serialization.serialize'

weak_contract(DESER, str, PARSE_ERRORS, ['C03.deserialize_errors'])
weak_contract(HEXDESER, str, PARSE_ERRORS, ['C03.hex_deserialize_errors'])
weak_contract(SER, bytearray, PARSE_ERRORS, ['C03.serialize_errors'])


# ------------------------------------------------------------- parsers

def txin_parse_pre(cls, byte_string):
    return [cls is tx.TxIn, starts_txin(byte_string)]


@contract('riemann.tx.tx.TxIn.from_bytes', pre=txin_parse_pre,
          proof=['C09.txin_parse', 'C09.txin_parse_long'])
def txin_from_bytes(cls, byte_string):
    """some split of the script; which one is not said"""
    n = cs_value(byte_string[36:])
    at = 36 + len(cs(n))
    script = byte_string[at:at + n]
    cut = split_at(script)
    return tx.TxIn(
        tx.Outpoint(byte_string[:32], byte_string[32:36]),
        script[:cut], script[cut:], byte_string[at + n:at + n + 4])


def witness_parse_pre(cls, byte_string):
    return [cls is tx.InputWitness, starts_witness(byte_string)]


@contract('riemann.tx.tx.InputWitness.from_bytes', pre=witness_parse_pre,
          proof=['C09.witness_parse'])
def witness_from_bytes(cls, byte_string):
    return tx.InputWitness([tx.WitnessStackItem(x)
                            for x in witness_items(byte_string)])


# ------------------------------------------------------------- BLAKE-256

BLAKE_STATE = ('h', 't', 'cache', 'state', 'nullt', 'hash')


def words(h):
    return len(h) == 8 and all(0 <= x < 2 ** 32 for x in h)


def compress_pre(self, block):
    return [len(block) == 64, words(self.h), 0 <= self.t,
            self.t < 2 ** 64,
            as_made(self, blake256.BLAKE(256), BLAKE_STATE)]


@contract('riemann.blake256.BLAKE._compress', pre=compress_pre,
          proof=['C19.compress'])
def compress(self, block):
    t = 0 if self.nullt else self.t
    out = blake_block(b''.join([x.to_bytes(4, 'big') for x in self.h]),
                      block, t.to_bytes(8, 'big'))
    self.h = [word_at(out, i) for i in range(8)]


def final_pre(self, data=''):
    return [len(data) == 0, words(self.h), 0 <= self.t, self.t < 2 ** 63,
            len(self.cache) < 64, self.nullt == 0,
            [self.state == 1, self.state == 2],
            as_made(self, blake256.BLAKE(256), BLAKE_STATE)]


@contract('riemann.blake256.BLAKE.final', pre=final_pre,
          proof=['C19.final_short', 'C19.final_long'])
def final(self, data=''):
    self.hash = blake_final(b''.join([x.to_bytes(4, 'big') for x in self.h]),
                            self.cache, self.t.to_bytes(8, 'big'))
    self.h = unspecified()
    self.t = unspecified()
    self.cache = unspecified()
    self.nullt = unspecified()
    self.state = 3
    return self.hash
