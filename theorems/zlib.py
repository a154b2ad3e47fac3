"""Zcash parts: building the inputs of theorems, and their wire format."""
from riemann.tx import sapling, sprout, overwinter, zcash_shared as z
from theorems.lib import cs, cat, enc_txin, enc_txout, le

# field: size, in wire order
SPROUT_PROOF = {
    'pi_sub_a': 33, 'pi_prime_sub_a': 33, 'pi_sub_b': 65,
    'pi_prime_sub_b': 33, 'pi_sub_c': 33, 'pi_prime_sub_c': 33,
    'pi_sub_k': 33, 'pi_sub_h': 33}
SAPLING_PROOF = {'pi_sub_a': 48, 'pi_sub_b': 96, 'pi_sub_c': 48}
JOINSPLIT = {
    'vpub_old': 8, 'vpub_new': 8, 'anchor': 32, 'nullifiers': 64,
    'commitments': 64, 'ephemeral_key': 32, 'random_seed': 32, 'vmacs': 64,
    'zkproof': None, 'encoded_notes': 1202}
SPEND = {'cv': 32, 'anchor': 32, 'nullifier': 32, 'rk': 32, 'zkproof': None,
         'spend_auth_sig': 64}
OUTPUT = {'cv': 32, 'cmu': 32, 'ephemeral_key': 32, 'enc_ciphertext': 580,
          'out_ciphertext': 80, 'zkproof': None}


def is_sprout(n):
    return n.NETWORK_NAME == 'zcash_sprout'


def is_overwinter(n):
    return n.NETWORK_NAME == 'zcash_overwinter'


def is_sapling(n):
    return n.NETWORK_NAME == 'zcash_sapling'


def is_zcash(n):
    return 'zcash' in n.NETWORK_NAME


def mk_fields(D, sizes, proof, pre=''):
    """keyword arguments for a part"""
    return {k: D.bytes(pre + k, n, n) if n is not None else proof
            for k, n in sizes.items()}


def enc_fields(f, sizes):
    """the fields one after the other"""
    out = b''
    for k, n in sizes.items():
        out += f[k] if n is not None else f[k].to_bytes()
    return out


def mk_sprout_proof(D):
    return z.SproutZkproof(**mk_fields(D, SPROUT_PROOF, None))


def mk_sapling_proof(D):
    return sapling.SaplingZkproof(**mk_fields(D, SAPLING_PROOF, None, 'z_'))


def joinsplit_fields(D, proof):
    """one of the two public values is zero"""
    f = mk_fields(D, JOINSPLIT, proof)
    side = D.choice('side', ['vpub_old', 'vpub_new'])
    f[side] = b'\x00' * 8
    return f


def mk_sprout_joinsplit(D):
    return z.SproutJoinsplit(**joinsplit_fields(D, mk_sprout_proof(D)))


def mk_sapling_joinsplit(D):
    return sapling.SaplingJoinsplit(
        **joinsplit_fields(D, mk_sapling_proof(D)))


def mk_spend(D):
    return sapling.SaplingShieldedSpend(
        **mk_fields(D, SPEND, mk_sapling_proof(D)))


def mk_output(D):
    return sapling.SaplingShieldedOutput(
        **mk_fields(D, OUTPUT, mk_sapling_proof(D)))
