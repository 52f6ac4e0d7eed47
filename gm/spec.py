"""The protocol table, written down as data: what a peer running any release
of the same minor version expects of every message on the wire.  Nothing here
is read from the library at run time; the monitors compare the library's
behaviour to it.
"""


class T:
    def __init__(self, name, slots, sign, encrypt, msgs, enums, owners,
                 providers):
        self.name = name            # module.Class
        self.slots = slots          # in wire order
        self.sign = sign
        self.encrypt = encrypt
        self.msgs = msgs            # slot -> (type id, None allowed, is list)
        self.enums = enums          # slot -> {member name: wire value}
        self.owners = owners        # who may have signed it
        self.providers = providers  # slots consulted by the chain accessors


MAX_VARCHAR = 128
# slots that carry container structures: (type id, slot) -> kind
NODE_SLOTS = {
    (0, 'node_info'): 'node',
    (1015, 'node_info'): 'node', (1015, 'super_node_info'): 'node',
    (1016, 'node_info'): 'node', (1016, 'super_node_info'): 'node',
}
# slots that are never None: what None / absence turns into on construction
LIST_DEFAULT = {(1004, 'peers'), (1006, 'tasks'), (1009, 'resource_peers'),
                (1011, 'gossip')}

NODE_FIELDS = [
    'node_name', 'key', 'prv_port', 'pub_port', 'p2p_prv_port',
    'p2p_pub_port', 'prv_addr', 'pub_addr', 'prv_addresses',
    'hyperdrive_prv_port', 'hyperdrive_pub_port', 'port_statuses',
    'nat_type']
TASK_HEADER_FIELDS = [
    'mask', 'timestamp', 'signature', 'task_id', 'task_owner', 'deadline',
    'subtask_timeout', 'market_type', 'environment',
    'environment_prerequisites', 'min_version', 'estimated_memory',
    'max_price', 'subtask_budget', 'subtasks_count', 'concent_enabled']
CTD_FIELDS = ['task_id', 'subtask_id', 'deadline', 'extra_data',
              'performance', 'docker_images', 'resources']
FILE_INFO_FIELDS = ['path', 'checksum', 'size', 'category']

TYPES = {
    0: T(
        'base.Hello',
        ['rand_val', 'proto_id', 'node_info', 'port', 'client_ver', 'solve_challenge', 'challenge', 'difficulty', 'metadata'],
        sign=True, encrypt=False,
        msgs={},
        enums={},
        owners=[],
        providers=[]),
    1: T(
        'base.RandVal',
        ['rand_val'],
        sign=True, encrypt=True,
        msgs={},
        enums={},
        owners=[],
        providers=[]),
    2: T(
        'base.Disconnect',
        ['reason'],
        sign=True, encrypt=False,
        msgs={},
        enums={'reason': {'BadProtocol': 'bad_protocol',
                    'Bootstrap': 'bootstrap',
                    'DuplicatePeers': 'duplicate_peers',
                    'KeyNotDifficult': 'key_not_difficult',
                    'NoMoreMessages': 'no_more_messages',
                    'ProtocolVersion': 'protocol_version',
                    'Refresh': 'refresh',
                    'ResourceHandshakeFailure': 'resource_handshake',
                    'Timeout': 'timeout',
                    'TooManyPeers': 'too_many_peers',
                    'Unverified': 'unverified',
                    'WrongEncryption': 'wrong_encryption'}},
        owners=[],
        providers=[]),
    3: T(
        'base.ChallengeSolution',
        ['solution'],
        sign=True, encrypt=True,
        msgs={},
        enums={},
        owners=[],
        providers=[]),
    1001: T(
        'p2p.Ping',
        [],
        sign=False, encrypt=True,
        msgs={},
        enums={},
        owners=[],
        providers=[]),
    1002: T(
        'p2p.Pong',
        [],
        sign=False, encrypt=True,
        msgs={},
        enums={},
        owners=[],
        providers=[]),
    1003: T(
        'p2p.GetPeers',
        [],
        sign=False, encrypt=True,
        msgs={},
        enums={},
        owners=[],
        providers=[]),
    1004: T(
        'p2p.Peers',
        ['peers'],
        sign=False, encrypt=True,
        msgs={},
        enums={},
        owners=[],
        providers=[]),
    1005: T(
        'p2p.GetTasks',
        [],
        sign=False, encrypt=True,
        msgs={},
        enums={},
        owners=[],
        providers=[]),
    1006: T(
        'p2p.Tasks',
        ['tasks'],
        sign=True, encrypt=True,
        msgs={},
        enums={},
        owners=[],
        providers=[]),
    1007: T(
        'p2p.RemoveTask',
        ['task_id'],
        sign=True, encrypt=True,
        msgs={},
        enums={},
        owners=[],
        providers=[]),
    1008: T(
        'p2p.GetResourcePeers',
        [],
        sign=False, encrypt=True,
        msgs={},
        enums={},
        owners=[],
        providers=[]),
    1009: T(
        'p2p.ResourcePeers',
        ['resource_peers'],
        sign=False, encrypt=True,
        msgs={},
        enums={},
        owners=[],
        providers=[]),
    1010: T(
        'p2p.Degree',
        ['degree'],
        sign=False, encrypt=True,
        msgs={},
        enums={},
        owners=[],
        providers=[]),
    1011: T(
        'p2p.Gossip',
        ['gossip'],
        sign=False, encrypt=True,
        msgs={},
        enums={},
        owners=[],
        providers=[]),
    1012: T(
        'p2p.StopGossip',
        [],
        sign=False, encrypt=True,
        msgs={},
        enums={},
        owners=[],
        providers=[]),
    1013: T(
        'p2p.LocRank',
        ['node_id', 'loc_rank'],
        sign=False, encrypt=True,
        msgs={},
        enums={},
        owners=[],
        providers=[]),
    1014: T(
        'p2p.FindNode',
        ['node_key_id'],
        sign=False, encrypt=True,
        msgs={},
        enums={},
        owners=[],
        providers=[]),
    1015: T(
        'p2p.WantToStartTaskSession',
        ['node_info', 'conn_id', 'super_node_info'],
        sign=True, encrypt=True,
        msgs={},
        enums={},
        owners=[],
        providers=[]),
    1016: T(
        'p2p.SetTaskSession',
        ['key_id', 'node_info', 'conn_id', 'super_node_info'],
        sign=True, encrypt=True,
        msgs={},
        enums={},
        owners=[],
        providers=[]),
    1017: T(
        'p2p.RemoveTaskContainer',
        ['remove_tasks'],
        sign=True, encrypt=True,
        msgs={'remove_tasks': (1007, False, True)},
        enums={},
        owners=[],
        providers=[]),
    2001: T(
        'tasks.WantToComputeTask',
        ['perf_index', 'cpu_usage', 'max_resource_size', 'max_memory_size', 'price', 'num_subtasks', 'concent_enabled', 'extra_data', 'provider_public_key', 'provider_ethereum_address', 'task_header'],
        sign=True, encrypt=True,
        msgs={},
        enums={},
        owners=[],
        providers=[]),
    2002: T(
        'tasks.TaskToCompute',
        ['requestor_id', 'requestor_public_key', 'requestor_ethereum_public_key', 'provider_id', 'compute_task_def', 'want_to_compute_task', 'package_hash', 'size', 'concent_enabled', 'price', 'resources_options', 'ethsig', 'promissory_note_sig', 'concent_promissory_note_sig'],
        sign=True, encrypt=True,
        msgs={'want_to_compute_task': (2001, False, False)},
        enums={},
        owners=['requestor'],
        providers=[]),
    2003: T(
        'tasks.CannotAssignTask',
        ['task_id', 'reason'],
        sign=True, encrypt=True,
        msgs={},
        enums={'reason': {'ConcentDisabled': 'ConcentDisabled',
                    'NoMoreSubtasks': 'NoMoreSubtasks',
                    'NotMyTask': 'NotMyTask',
                    'TaskFinished': 'TaskFinished'}},
        owners=[],
        providers=[]),
    2004: T(
        'tasks.ReportComputedTask',
        ['address', 'node_info', 'port', 'key_id', 'extra_data', 'task_to_compute', 'size', 'package_hash', 'multihash', 'secret', 'options', 'stats'],
        sign=True, encrypt=True,
        msgs={'task_to_compute': (2002, False, False)},
        enums={},
        owners=['provider'],
        providers=['task_to_compute']),
    2010: T(
        'tasks.SubtaskResultsAccepted',
        ['payment_ts', 'report_computed_task'],
        sign=True, encrypt=True,
        msgs={'report_computed_task': (2004, False, False)},
        enums={},
        owners=['requestor'],
        providers=['report_computed_task']),
    2011: T(
        'tasks.SubtaskResultsRejected',
        ['report_computed_task', 'force_get_task_result_failed', 'reason'],
        sign=True, encrypt=True,
        msgs={'report_computed_task': (2004, False, False), 'force_get_task_result_failed': (4011, True, False)},
        enums={'reason': {'ConcentResourcesFailure': 'Concent could not retrieve '
                                               'resources to verify',
                    'ConcentVerificationNegative': 'Concent results '
                                                   'verification negative',
                    'ForcedResourcesFailure': 'Concent reported failure to '
                                              'retrieve the resources to '
                                              'verify',
                    'ResourcesFailure': 'Could not retrieve resources',
                    'VerificationNegative': 'Results verification negative'}},
        owners=['requestor', 'concent'],
        providers=['report_computed_task']),
    2015: T(
        'tasks.TaskFailure',
        ['task_to_compute', 'err', 'reason'],
        sign=True, encrypt=True,
        msgs={'task_to_compute': (2002, False, False)},
        enums={'reason': {'BudgetExceeded': 'BudgetExceeded',
                    'ComputationError': 'ComputationError',
                    'TimeExceeded': 'TimeExceeded'}},
        owners=['provider'],
        providers=['task_to_compute']),
    2016: T(
        'tasks.StartSessionResponse',
        ['conn_id'],
        sign=True, encrypt=True,
        msgs={},
        enums={},
        owners=[],
        providers=[]),
    2026: T(
        'tasks.CannotComputeTask',
        ['task_to_compute', 'reason'],
        sign=True, encrypt=True,
        msgs={'task_to_compute': (2002, False, False)},
        enums={'reason': {'CannotTakeWork': 'CannotTakeWork',
                    'ConcentDisabled': 'ConcentDisabled',
                    'ConcentRequired': 'ConcentRequired',
                    'InsufficientBalance': 'InsufficientBalance',
                    'InsufficientDeposit': 'InsufficientDeposit',
                    'NoSourceCode': 'NoSourceCode',
                    'OfferCancelled': 'OfferCancelled',
                    'PromissoryNoteMissing': 'PromissoryNoteMissing',
                    'ResourcesTooBig': 'ResourcesTooBig',
                    'TooShortDeposit': 'TooShortDeposit',
                    'WrongAddress': 'WrongAddress',
                    'WrongCTD': 'WrongCTD',
                    'WrongDockerImages': 'WrongDockerImages',
                    'WrongEnvironment': 'WrongEnvironment',
                    'WrongKey': 'WrongKey'}},
        owners=['provider'],
        providers=['task_to_compute']),
    2027: T(
        'tasks.SubtaskPayment',
        ['subtask_id', 'reward', 'transaction_id', 'block_number'],
        sign=True, encrypt=True,
        msgs={},
        enums={},
        owners=[],
        providers=[]),
    2028: T(
        'tasks.SubtaskPaymentRequest',
        ['subtask_id'],
        sign=True, encrypt=True,
        msgs={},
        enums={},
        owners=[],
        providers=[]),
    2029: T(
        'tasks.AckReportComputedTask',
        ['report_computed_task'],
        sign=True, encrypt=True,
        msgs={'report_computed_task': (2004, False, False)},
        enums={},
        owners=['requestor', 'concent'],
        providers=['report_computed_task']),
    2030: T(
        'tasks.RejectReportComputedTask',
        ['attached_task_to_compute', 'task_failure', 'cannot_compute_task', 'reason'],
        sign=True, encrypt=True,
        msgs={'attached_task_to_compute': (2002, True, False), 'task_failure': (2015, True, False), 'cannot_compute_task': (2026, True, False)},
        enums={'reason': {'GotMessageCannotComputeTask': 'GotMessageCannotComputeTask',
                    'GotMessageTaskFailure': 'GotMessageTaskFailure',
                    'SubtaskTimeLimitExceeded': 'SubtaskTimeLimitExceeded'}},
        owners=['requestor', 'concent'],
        providers=['attached_task_to_compute', 'task_failure', 'cannot_compute_task']),
    3001: T(
        'resources.PushResource',
        ['copies', 'resource'],
        sign=True, encrypt=True,
        msgs={},
        enums={},
        owners=[],
        providers=[]),
    3002: T(
        'resources.HasResource',
        ['resource'],
        sign=True, encrypt=True,
        msgs={},
        enums={},
        owners=[],
        providers=[]),
    3003: T(
        'resources.WantsResource',
        ['resource'],
        sign=True, encrypt=True,
        msgs={},
        enums={},
        owners=[],
        providers=[]),
    3004: T(
        'resources.PullResource',
        ['resource'],
        sign=True, encrypt=True,
        msgs={},
        enums={},
        owners=[],
        providers=[]),
    3005: T(
        'resources.PullAnswer',
        ['resource', 'has_resource'],
        sign=True, encrypt=True,
        msgs={},
        enums={},
        owners=[],
        providers=[]),
    3008: T(
        'resources.ResourceHandshakeStart',
        ['resource', 'options'],
        sign=True, encrypt=True,
        msgs={},
        enums={},
        owners=[],
        providers=[]),
    3009: T(
        'resources.ResourceHandshakeNonce',
        ['nonce'],
        sign=True, encrypt=True,
        msgs={},
        enums={},
        owners=[],
        providers=[]),
    3010: T(
        'resources.ResourceHandshakeVerdict',
        ['accepted', 'nonce'],
        sign=True, encrypt=True,
        msgs={},
        enums={},
        owners=[],
        providers=[]),
    4000: T(
        'concents.ServiceRefused',
        ['task_to_compute', 'reason'],
        sign=True, encrypt=True,
        msgs={'task_to_compute': (2002, True, False)},
        enums={'reason': {'ConcentDisabled': 'CONCENT_SERVICE_IS_NOT_ENABLED_FOR_THIS_SUBTASK',
                    'DuplicateRequest': 'DUPLICATE_REQUEST',
                    'InvalidRequest': 'REQUEST_FORMAT_OR_CONTENT_INVALID',
                    'PriceNotPositive': 'PRICE_NOT_POSITIVE',
                    'SystemOverloaded': 'SYSTEM_OVERLOADED',
                    'TooSmallCommunicationPayment': 'TOO_SMALL_COMMUNICATION_PAYMENT',
                    'TooSmallProviderDeposit': 'TOO_SMALL_PROVIDER_DEPOSIT',
                    'TooSmallRequestorDeposit': 'TOO_SMALL_REQUESTOR_DEPOSIT',
                    'UnsupportedProtocolVersion': 'UNSUPPORTED_PROTOCOL_VERSION'}},
        owners=['concent'],
        providers=['task_to_compute']),
    4001: T(
        'concents.ForceReportComputedTask',
        ['report_computed_task', 'result_hash'],
        sign=True, encrypt=True,
        msgs={'report_computed_task': (2004, False, False)},
        enums={},
        owners=['provider', 'concent'],
        providers=['report_computed_task']),
    4004: T(
        'concents.VerdictReportComputedTask',
        ['force_report_computed_task', 'ack_report_computed_task'],
        sign=True, encrypt=True,
        msgs={'force_report_computed_task': (4001, False, False), 'ack_report_computed_task': (2029, False, False)},
        enums={},
        owners=['concent'],
        providers=['force_report_computed_task', 'ack_report_computed_task']),
    4005: T(
        'concents.FileTransferToken',
        ['subtask_id', 'token_expiration_deadline', 'storage_cluster_address', 'authorized_client_public_key', 'operation', 'files'],
        sign=True, encrypt=True,
        msgs={},
        enums={'operation': {'download': 'download', 'upload': 'upload'}},
        owners=[],
        providers=[]),
    4006: T(
        'concents.SubtaskResultsVerify',
        ['subtask_results_rejected', 'concent_promissory_note_sig'],
        sign=True, encrypt=True,
        msgs={'subtask_results_rejected': (2011, False, False)},
        enums={},
        owners=['provider'],
        providers=['subtask_results_rejected']),
    4007: T(
        'concents.AckSubtaskResultsVerify',
        ['subtask_results_verify', 'file_transfer_token'],
        sign=True, encrypt=True,
        msgs={'subtask_results_verify': (4006, False, False), 'file_transfer_token': (4005, False, False)},
        enums={},
        owners=['concent'],
        providers=['subtask_results_verify']),
    4008: T(
        'concents.SubtaskResultsSettled',
        ['origin', 'task_to_compute'],
        sign=True, encrypt=True,
        msgs={'task_to_compute': (2002, False, False)},
        enums={'origin': {'ResultsAcceptedTimeout': 'results_accepted_timeout',
                    'ResultsRejected': 'results_rejected'}},
        owners=['concent'],
        providers=['task_to_compute']),
    4009: T(
        'concents.ForceGetTaskResult',
        ['report_computed_task'],
        sign=True, encrypt=True,
        msgs={'report_computed_task': (2004, False, False)},
        enums={},
        owners=['requestor'],
        providers=['report_computed_task']),
    4010: T(
        'concents.AckForceGetTaskResult',
        ['force_get_task_result'],
        sign=True, encrypt=True,
        msgs={'force_get_task_result': (4009, False, False)},
        enums={},
        owners=['concent'],
        providers=['force_get_task_result']),
    4011: T(
        'concents.ForceGetTaskResultFailed',
        ['task_to_compute'],
        sign=True, encrypt=True,
        msgs={'task_to_compute': (2002, False, False)},
        enums={},
        owners=['concent'],
        providers=['task_to_compute']),
    4012: T(
        'concents.ForceGetTaskResultRejected',
        ['force_get_task_result', 'reason'],
        sign=True, encrypt=True,
        msgs={'force_get_task_result': (4009, False, False)},
        enums={'reason': {'AcceptanceTimeLimitExceeded': 'acceptance_time_limit_exceeded'}},
        owners=['concent'],
        providers=['force_get_task_result']),
    4013: T(
        'concents.ForceGetTaskResultUpload',
        ['force_get_task_result', 'file_transfer_token'],
        sign=True, encrypt=True,
        msgs={'force_get_task_result': (4009, False, False), 'file_transfer_token': (4005, False, False)},
        enums={},
        owners=['concent'],
        providers=['force_get_task_result']),
    4014: T(
        'concents.ForceGetTaskResultDownload',
        ['force_get_task_result', 'file_transfer_token'],
        sign=True, encrypt=True,
        msgs={'force_get_task_result': (4009, False, False), 'file_transfer_token': (4005, False, False)},
        enums={},
        owners=['concent'],
        providers=['force_get_task_result']),
    4015: T(
        'concents.ForceSubtaskResults',
        ['ack_report_computed_task'],
        sign=True, encrypt=True,
        msgs={'ack_report_computed_task': (2029, False, False)},
        enums={},
        owners=['provider', 'concent'],
        providers=['ack_report_computed_task']),
    4016: T(
        'concents.ForceSubtaskResultsResponse',
        ['subtask_results_accepted', 'subtask_results_rejected'],
        sign=True, encrypt=True,
        msgs={'subtask_results_accepted': (2010, True, False), 'subtask_results_rejected': (2011, True, False)},
        enums={},
        owners=['concent'],
        providers=['subtask_results_accepted', 'subtask_results_rejected']),
    4017: T(
        'concents.ForceSubtaskResultsRejected',
        ['force_subtask_results', 'reason'],
        sign=True, encrypt=True,
        msgs={'force_subtask_results': (4015, False, False)},
        enums={'reason': {'RequestPremature': 'premature: still within the '
                                        'verification timeout',
                    'RequestTooLate': 'too late: past the forced '
                                      'communication timeout'}},
        owners=['concent'],
        providers=['force_subtask_results']),
    4018: T(
        'concents.ForcePayment',
        ['subtask_results_accepted_list'],
        sign=True, encrypt=True,
        msgs={'subtask_results_accepted_list': (2010, False, True)},
        enums={},
        owners=[],
        providers=[]),
    4019: T(
        'concents.ForcePaymentCommitted',
        ['payment_ts', 'task_owner_key', 'provider_eth_account', 'amount_paid', 'recipient_type', 'amount_pending'],
        sign=True, encrypt=True,
        msgs={},
        enums={'recipient_type': {'Provider': 'provider', 'Requestor': 'requestor'}},
        owners=[],
        providers=[]),
    4020: T(
        'concents.ForcePaymentRejected',
        ['force_payment', 'reason'],
        sign=True, encrypt=True,
        msgs={'force_payment': (4018, False, False)},
        enums={'reason': {'NoUnsettledTasksFound': 'no unsettled tasks found',
                    'TimestampError': 'timestamp error - subtasks are not '
                                      'overdue yet'}},
        owners=[],
        providers=[]),
    4021: T(
        'concents.ForceReportComputedTaskResponse',
        ['reason', 'ack_report_computed_task', 'reject_report_computed_task'],
        sign=True, encrypt=True,
        msgs={'ack_report_computed_task': (2029, True, False), 'reject_report_computed_task': (2030, True, False)},
        enums={'reason': {'AckFromRequestor': 'ack_from_requestor',
                    'ConcentAck': 'concent_ack',
                    'RejectFromRequestor': 'reject_from_requestor',
                    'SubtaskTimeout': 'subtask_timeout'}},
        owners=['concent'],
        providers=['ack_report_computed_task', 'reject_report_computed_task']),
    4022: T(
        'concents.ClientAuthorization',
        ['client_public_key'],
        sign=True, encrypt=True,
        msgs={},
        enums={},
        owners=[],
        providers=[]),
}

BY_NAME = {t.name.split('.')[1]: i for i, t in TYPES.items()}


def tid(name):
    return BY_NAME[name]


def has_chain(type_id):
    """Whether the message belongs to a task chain (has owners)."""
    return bool(TYPES[type_id].owners)
