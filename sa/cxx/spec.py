"""The phase0 specification, frozen: container fields in order, their types, and the constants of both presets.

Types: 'uint64', 'boolean', 'BytesN', a container name, ('List', T, limit), ('Vector', T, length), ('Bitlist', limit), ('Bitvector', length).
Limits and lengths are expressions over the constants below."""

B4, B32, B48, B96, U = 'Bytes4', 'Bytes32', 'Bytes48', 'Bytes96', 'uint64'
CONTAINERS = {
    'Fork': [('previous_version', B4), ('current_version', B4), ('epoch', U)],
    'ForkData': [('current_version', B4), ('genesis_validators_root', B32)],
    'Checkpoint': [('epoch', U), ('root', B32)],
    'SigningData': [('object_root', B32), ('domain', B32)],
    'Validator': [('pubkey', B48), ('withdrawal_credentials', B32), ('effective_balance', U), ('slashed', 'boolean'),
                  ('activation_eligibility_epoch', U), ('activation_epoch', U), ('exit_epoch', U), ('withdrawable_epoch', U)],
    'AttestationData': [('slot', U), ('index', U), ('beacon_block_root', B32), ('source', 'Checkpoint'), ('target', 'Checkpoint')],
    'IndexedAttestation': [('attesting_indices', ('List', U, 'MAX_VALIDATORS_PER_COMMITTEE')), ('data', 'AttestationData'), ('signature', B96)],
    'PendingAttestation': [('aggregation_bits', ('Bitlist', 'MAX_VALIDATORS_PER_COMMITTEE')), ('data', 'AttestationData'),
                           ('inclusion_delay', U), ('proposer_index', U)],
    'Attestation': [('aggregation_bits', ('Bitlist', 'MAX_VALIDATORS_PER_COMMITTEE')), ('data', 'AttestationData'), ('signature', B96)],
    'Eth1Data': [('deposit_root', B32), ('deposit_count', U), ('block_hash', B32)],
    'DepositMessage': [('pubkey', B48), ('withdrawal_credentials', B32), ('amount', U)],
    'DepositData': [('pubkey', B48), ('withdrawal_credentials', B32), ('amount', U), ('signature', B96)],
    'Deposit': [('proof', ('Vector', B32, 'DEPOSIT_CONTRACT_TREE_DEPTH + 1')), ('data', 'DepositData')],
    'BeaconBlockHeader': [('slot', U), ('proposer_index', U), ('parent_root', B32), ('state_root', B32), ('body_root', B32)],
    'SignedBeaconBlockHeader': [('message', 'BeaconBlockHeader'), ('signature', B96)],
    'VoluntaryExit': [('epoch', U), ('validator_index', U)],
    'SignedVoluntaryExit': [('message', 'VoluntaryExit'), ('signature', B96)],
    'ProposerSlashing': [('signed_header_1', 'SignedBeaconBlockHeader'), ('signed_header_2', 'SignedBeaconBlockHeader')],
    'AttesterSlashing': [('attestation_1', 'IndexedAttestation'), ('attestation_2', 'IndexedAttestation')],
    'BeaconBlockBody': [('randao_reveal', B96), ('eth1_data', 'Eth1Data'), ('graffiti', B32),
                        ('proposer_slashings', ('List', 'ProposerSlashing', 'MAX_PROPOSER_SLASHINGS')),
                        ('attester_slashings', ('List', 'AttesterSlashing', 'MAX_ATTESTER_SLASHINGS')),
                        ('attestations', ('List', 'Attestation', 'MAX_ATTESTATIONS')),
                        ('deposits', ('List', 'Deposit', 'MAX_DEPOSITS')),
                        ('voluntary_exits', ('List', 'SignedVoluntaryExit', 'MAX_VOLUNTARY_EXITS'))],
    'BeaconBlock': [('slot', U), ('proposer_index', U), ('parent_root', B32), ('state_root', B32), ('body', 'BeaconBlockBody')],
    'SignedBeaconBlock': [('message', 'BeaconBlock'), ('signature', B96)],
    'BeaconState': [('genesis_time', U), ('genesis_validators_root', B32), ('slot', U), ('fork', 'Fork'),
                    ('latest_block_header', 'BeaconBlockHeader'), ('block_roots', ('Vector', B32, 'SLOTS_PER_HISTORICAL_ROOT')),
                    ('state_roots', ('Vector', B32, 'SLOTS_PER_HISTORICAL_ROOT')), ('historical_roots', ('List', B32, 'HISTORICAL_ROOTS_LIMIT')),
                    ('eth1_data', 'Eth1Data'), ('eth1_data_votes', ('List', 'Eth1Data', 'EPOCHS_PER_ETH1_VOTING_PERIOD * SLOTS_PER_EPOCH')),
                    ('eth1_deposit_index', U), ('validators', ('List', 'Validator', 'VALIDATOR_REGISTRY_LIMIT')),
                    ('balances', ('List', U, 'VALIDATOR_REGISTRY_LIMIT')), ('randao_mixes', ('Vector', B32, 'EPOCHS_PER_HISTORICAL_VECTOR')),
                    ('slashings', ('Vector', U, 'EPOCHS_PER_SLASHINGS_VECTOR')),
                    ('previous_epoch_attestations', ('List', 'PendingAttestation', 'MAX_ATTESTATIONS * SLOTS_PER_EPOCH')),
                    ('current_epoch_attestations', ('List', 'PendingAttestation', 'MAX_ATTESTATIONS * SLOTS_PER_EPOCH')),
                    ('justification_bits', ('Bitvector', 'JUSTIFICATION_BITS_LENGTH')),
                    ('previous_justified_checkpoint', 'Checkpoint'), ('current_justified_checkpoint', 'Checkpoint'),
                    ('finalized_checkpoint', 'Checkpoint')],
}

_COMMON = dict(
    GENESIS_SLOT=0, GENESIS_EPOCH=0, FAR_FUTURE_EPOCH=2**64 - 1, BASE_REWARDS_PER_EPOCH=4, DEPOSIT_CONTRACT_TREE_DEPTH=32,
    JUSTIFICATION_BITS_LENGTH=4, BYTES_PER_CHUNK=32, BYTES_PER_LENGTH_OFFSET=4, BITS_PER_BYTE=8, SECONDS_PER_DAY=86400,
    DEPOSIT_CONTRACT_LIMIT=2**32,
    ENDIANNESS='little', BLS_WITHDRAWAL_PREFIX=b'\0',
    DOMAIN_BEACON_PROPOSER=bytes([0, 0, 0, 0]), DOMAIN_BEACON_ATTESTER=bytes([1, 0, 0, 0]), DOMAIN_RANDAO=bytes([2, 0, 0, 0]),
    DOMAIN_DEPOSIT=bytes([3, 0, 0, 0]), DOMAIN_VOLUNTARY_EXIT=bytes([4, 0, 0, 0]), DOMAIN_SELECTION_PROOF=bytes([5, 0, 0, 0]),
    DOMAIN_AGGREGATE_AND_PROOF=bytes([6, 0, 0, 0]),
    TARGET_AGGREGATORS_PER_COMMITTEE=16, RANDOM_SUBNETS_PER_VALIDATOR=1, EPOCHS_PER_RANDOM_SUBNET_SUBSCRIPTION=256,
    ATTESTATION_SUBNET_COUNT=64, INTERVALS_PER_SLOT=3,
    ETH1_FOLLOW_DISTANCE=2048, SECONDS_PER_ETH1_BLOCK=14,
    MAX_VALIDATORS_PER_COMMITTEE=2048, MIN_PER_EPOCH_CHURN_LIMIT=4,
    HYSTERESIS_QUOTIENT=4, HYSTERESIS_DOWNWARD_MULTIPLIER=1, HYSTERESIS_UPWARD_MULTIPLIER=5,
    MIN_DEPOSIT_AMOUNT=10**9, MAX_EFFECTIVE_BALANCE=32 * 10**9, EJECTION_BALANCE=16 * 10**9, EFFECTIVE_BALANCE_INCREMENT=10**9,
    MIN_ATTESTATION_INCLUSION_DELAY=1, MIN_SEED_LOOKAHEAD=1, MAX_SEED_LOOKAHEAD=4,
    MIN_VALIDATOR_WITHDRAWABILITY_DELAY=256, HISTORICAL_ROOTS_LIMIT=2**24, VALIDATOR_REGISTRY_LIMIT=2**40,
    BASE_REWARD_FACTOR=64, WHISTLEBLOWER_REWARD_QUOTIENT=512, PROPOSER_REWARD_QUOTIENT=8,
    MAX_PROPOSER_SLASHINGS=16, MAX_ATTESTER_SLASHINGS=2, MAX_ATTESTATIONS=128, MAX_DEPOSITS=16, MAX_VOLUNTARY_EXITS=16,
)
CONSTANTS = {
    'mainnet': dict(_COMMON,
        MAX_COMMITTEES_PER_SLOT=64, TARGET_COMMITTEE_SIZE=128, CHURN_LIMIT_QUOTIENT=65536, SHUFFLE_ROUND_COUNT=90,
        MIN_GENESIS_ACTIVE_VALIDATOR_COUNT=16384, MIN_GENESIS_TIME=1606824000, GENESIS_DELAY=604800,
        GENESIS_FORK_VERSION=bytes([0, 0, 0, 0]), SECONDS_PER_SLOT=12, SAFE_SLOTS_TO_UPDATE_JUSTIFIED=8, SLOTS_PER_EPOCH=32, MIN_EPOCHS_TO_INACTIVITY_PENALTY=4,
        EPOCHS_PER_ETH1_VOTING_PERIOD=64, SLOTS_PER_HISTORICAL_ROOT=8192, SHARD_COMMITTEE_PERIOD=256,
        EPOCHS_PER_HISTORICAL_VECTOR=65536, EPOCHS_PER_SLASHINGS_VECTOR=8192, INACTIVITY_PENALTY_QUOTIENT=2**26,
        MIN_SLASHING_PENALTY_QUOTIENT=128, PROPORTIONAL_SLASHING_MULTIPLIER=1,
        DEPOSIT_CHAIN_ID=1, DEPOSIT_NETWORK_ID=1, DEPOSIT_CONTRACT_ADDRESS=bytes.fromhex('00000000219ab540356cbb839cbe05303d7705fa')),
    'minimal': dict(_COMMON,
        MAX_COMMITTEES_PER_SLOT=4, TARGET_COMMITTEE_SIZE=4, CHURN_LIMIT_QUOTIENT=65536, SHUFFLE_ROUND_COUNT=10,
        MIN_GENESIS_ACTIVE_VALIDATOR_COUNT=64, MIN_GENESIS_TIME=1578009600, GENESIS_DELAY=300,
        GENESIS_FORK_VERSION=bytes([0, 0, 0, 1]), SECONDS_PER_SLOT=6, SAFE_SLOTS_TO_UPDATE_JUSTIFIED=2, SLOTS_PER_EPOCH=8, MIN_EPOCHS_TO_INACTIVITY_PENALTY=4,
        ETH1_FOLLOW_DISTANCE=16, EPOCHS_PER_ETH1_VOTING_PERIOD=4, SLOTS_PER_HISTORICAL_ROOT=64, SHARD_COMMITTEE_PERIOD=64,
        EPOCHS_PER_HISTORICAL_VECTOR=64, EPOCHS_PER_SLASHINGS_VECTOR=64, INACTIVITY_PENALTY_QUOTIENT=2**25,
        MIN_SLASHING_PENALTY_QUOTIENT=64, PROPORTIONAL_SLASHING_MULTIPLIER=2,
        DEPOSIT_CHAIN_ID=5, DEPOSIT_NETWORK_ID=5, DEPOSIT_CONTRACT_ADDRESS=bytes.fromhex('1234567890123456789012345678901234567890')),
}


def const(preset, e):
    return eval(e, {'__builtins__': {}}, CONSTANTS[preset]) if isinstance(e, str) else e


def size(preset, t):
    """SSZ size in bytes, 0 for variable-size types"""
    if t == 'uint64':
        return 8
    if t == 'boolean':
        return 1
    if isinstance(t, str):
        if t in CONTAINERS:
            s = [size(preset, x) for _, x in CONTAINERS[t]]
            return sum(s) if all(s) else 0
        return int(t[5:])
    if t[0] == 'Vector':
        return const(preset, t[2]) * size(preset, t[1])
    if t[0] == 'Bitvector':
        return (const(preset, t[1]) + 7) // 8
    return 0


def chunk_limit(preset, t):
    """number of leaf chunks the tree of a list or bitlist is padded to"""
    lim = const(preset, t[-1])
    if t[0] == 'Bitlist':
        return (lim + 255) // 256
    if t[1] in ('uint64', 'boolean'):
        return (lim * size(preset, t[1]) + 31) // 32
    return lim


def depth(n):
    return max(0, (n - 1).bit_length())
