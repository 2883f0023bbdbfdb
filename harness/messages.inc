M(cn::network_config, 1);
M(cn::basic_node_data, 1);
M(cn::CORE_SYNC_DATA, 1);
M(cn::COMMAND_HANDSHAKE::request, 1);
M(cn::COMMAND_HANDSHAKE::response, 1);
M(cn::COMMAND_TIMED_SYNC::request, 1);
M(cn::COMMAND_TIMED_SYNC::response, 1);
M(cn::COMMAND_PING::request, 1);
M(cn::COMMAND_PING::response, 1);
M(cn::block_complete_entry, 1);
M(cn::BlockFullInfo, 1);
M(cn::TransactionPrefixInfo, 1);
M(cn::BlockShortInfo, 1);
M(cn::NOTIFY_NEW_BLOCK_request, 1);
M(cn::NOTIFY_NEW_TRANSACTIONS_request, 1);
M(cn::NOTIFY_REQUEST_GET_OBJECTS_request, 1);
M(cn::NOTIFY_RESPONSE_GET_OBJECTS_request, 1);
M(cn::NOTIFY_REQUEST_CHAIN::request, 1);
M(cn::NOTIFY_RESPONSE_CHAIN_ENTRY_request, 1);
M(cn::NOTIFY_REQUEST_TX_POOL_request, 1);
M(cn::NOTIFY_NEW_LITE_BLOCK_request, 1);
M(cn::NOTIFY_MISSING_TXS_request, 1);
M(cn::EMPTY_STRUCT, 3);
M(cn::STATUS_STRUCT, 3);
M(cn::COMMAND_RPC_GET_HEIGHT::response, 3);
M(cn::COMMAND_RPC_GET_BLOCKS_FAST::request, 3);
M(cn::COMMAND_RPC_GET_BLOCKS_FAST::response, 3);
M(cn::COMMAND_RPC_GET_TRANSACTIONS::request, 3);
M(cn::COMMAND_RPC_GET_TRANSACTIONS::response, 3);
M(cn::block_short_response, 3);
M(cn::COMMAND_RPC_GET_POOL_CHANGES::request, 3);
M(cn::COMMAND_RPC_GET_POOL_CHANGES::response, 3);
M(cn::COMMAND_RPC_GET_ALT_BLOCKS_LIST::response, 3);
M(cn::COMMAND_RPC_GET_POOL_CHANGES_LITE::request, 3);
M(cn::COMMAND_RPC_GET_POOL_CHANGES_LITE::response, 3);
M(cn::COMMAND_RPC_GET_TX_GLOBAL_OUTPUTS_INDEXES::request, 3);
M(cn::COMMAND_RPC_GET_TX_GLOBAL_OUTPUTS_INDEXES::response, 3);
M(cn::COMMAND_RPC_GET_RANDOM_OUTPUTS_FOR_AMOUNTS_request, 3);
M(cn::COMMAND_RPC_GET_RANDOM_OUTPUTS_FOR_AMOUNTS_out_entry_json, 3);
M(cn::COMMAND_RPC_GET_RANDOM_OUTPUTS_FOR_AMOUNTS_outs_for_amount, 3);
M(cn::COMMAND_RPC_GET_RANDOM_OUTPUTS_FOR_AMOUNTS_outs_for_amount_json, 3);
M(cn::COMMAND_RPC_GET_RANDOM_OUTPUTS_FOR_AMOUNTS_response, 3);
M(cn::COMMAND_RPC_GET_RANDOM_OUTPUTS_FOR_AMOUNTS_response_json, 3);
M(cn::COMMAND_RPC_SEND_RAW_TX::request, 3);
M(cn::COMMAND_RPC_SEND_RAW_TX::response, 3);
M(cn::COMMAND_RPC_START_MINING::request, 3);
M(cn::COMMAND_RPC_START_MINING::response, 3);
M(cn::COMMAND_RPC_GET_INFO::response, 3);
M(cn::COMMAND_RPC_GET_PEER_LIST::response, 3);
M(cn::COMMAND_RPC_GETBLOCKCOUNT::response, 3);
M(cn::COMMAND_RPC_GET_FEE_ADDRESS::response, 3);
M(cn::COMMAND_RPC_GETBLOCKTEMPLATE::request, 3);
M(cn::COMMAND_RPC_GETBLOCKTEMPLATE::response, 3);
M(cn::COMMAND_RPC_GET_CURRENCY_ID::response, 3);
M(cn::block_header_response, 3);
M(cn::BLOCK_HEADER_RESPONSE, 3);
M(cn::f_transaction_short_response, 3);
M(cn::f_transaction_details_response, 3);
M(cn::f_block_short_response, 3);
M(cn::f_block_details_response, 3);
M(cn::currency_base_coin, 3);
M(cn::currency_core, 3);
M(cn::COMMAND_RPC_GET_BLOCK_HEADER_BY_HASH::request, 3);
M(cn::COMMAND_RPC_GET_BLOCK_HEADER_BY_HEIGHT::request, 3);
M(cn::F_COMMAND_RPC_GET_BLOCKS_LIST::request, 3);
M(cn::F_COMMAND_RPC_GET_BLOCKS_LIST::response, 3);
M(cn::F_COMMAND_RPC_GET_BLOCK_DETAILS::request, 3);
M(cn::F_COMMAND_RPC_GET_BLOCK_DETAILS::response, 3);
M(cn::F_COMMAND_RPC_GET_TRANSACTION_DETAILS::request, 3);
M(cn::F_COMMAND_RPC_GET_POOL::response, 3);
M(cn::F_COMMAND_RPC_GET_BLOCKCHAIN_SETTINGS::response, 3);
M(cn::COMMAND_RPC_QUERY_BLOCKS::request, 3);
M(cn::COMMAND_RPC_QUERY_BLOCKS::response, 3);
M(cn::COMMAND_RPC_QUERY_BLOCKS_LITE::request, 3);
M(cn::COMMAND_RPC_QUERY_BLOCKS_LITE::response, 3);
M(cn::reserve_proof_entry, 3);
M(cn::reserve_proof, 3);
M(cn::COMMAND_RPC_GET_BLOCK_TIMESTAMP_BY_HEIGHT::request, 3);
M(cn::COMMAND_RPC_GET_BLOCK_TIMESTAMP_BY_HEIGHT::response, 3);
M(cn::COMMAND_RPC_GET_BLOCK_DETAILS_BY_HEIGHT::request, 3);
M(cn::COMMAND_RPC_GET_BLOCK_DETAILS_BY_HEIGHT::response, 3);
M(cn::tx_with_output_global_indexes, 3);
M(cn::COMMAND_RPC_GET_TRANSACTIONS_WITH_OUTPUT_GLOBAL_INDEXES::request, 3);
M(cn::COMMAND_RPC_GET_TRANSACTIONS_WITH_OUTPUT_GLOBAL_INDEXES::response, 3);
M(cn::COMMAND_RPC_GET_RAW_TRANSACTIONS_POOL::response, 3);
M(cn::K_COMMAND_RPC_CHECK_TX_PROOF::request, 3);
M(cn::K_COMMAND_RPC_CHECK_TX_PROOF::response, 3);
M(cn::K_COMMAND_RPC_CHECK_RESERVE_PROOF::request, 3);
M(cn::K_COMMAND_RPC_CHECK_RESERVE_PROOF::response, 3);
M(payment_service::Save::Request, 2);
M(payment_service::Save::Response, 2);
M(payment_service::Reset::Request, 2);
M(payment_service::Reset::Response, 2);
M(payment_service::ExportWallet::Request, 2);
M(payment_service::ExportWallet::Response, 2);
M(payment_service::ExportWalletKeys::Request, 2);
M(payment_service::ExportWalletKeys::Response, 2);
M(payment_service::GetViewKey::Request, 2);
M(payment_service::GetViewKey::Response, 2);
M(payment_service::GetStatus::Request, 2);
M(payment_service::GetStatus::Response, 2);
M(payment_service::CreateDeposit::Request, 2);
M(payment_service::CreateDeposit::Response, 2);
M(payment_service::WithdrawDeposit::Request, 2);
M(payment_service::WithdrawDeposit::Response, 2);
M(payment_service::SendDeposit::Request, 2);
M(payment_service::SendDeposit::Response, 2);
M(payment_service::GetDeposit::Request, 2);
M(payment_service::GetDeposit::Response, 2);
M(payment_service::GetAddresses::Request, 2);
M(payment_service::GetAddresses::Response, 2);
M(payment_service::CreateAddress::Request, 2);
M(payment_service::CreateAddress::Response, 2);
M(payment_service::CreateAddressList::Request, 2);
M(payment_service::CreateAddressList::Response, 2);
M(payment_service::DeleteAddress::Request, 2);
M(payment_service::DeleteAddress::Response, 2);
M(payment_service::GetSpendKeys::Request, 2);
M(payment_service::GetSpendKeys::Response, 2);
M(payment_service::GetBalance::Request, 2);
M(payment_service::GetBalance::Response, 2);
M(payment_service::GetBlockHashes::Request, 2);
M(payment_service::GetBlockHashes::Response, 2);
M(payment_service::TransactionHashesInBlockRpcInfo, 2);
M(payment_service::GetTransactionHashes::Request, 2);
M(payment_service::GetTransactionHashes::Response, 2);
M(payment_service::CreateIntegrated::Request, 2);
M(payment_service::CreateIntegrated::Response, 2);
M(payment_service::SplitIntegrated::Request, 2);
M(payment_service::SplitIntegrated::Response, 2);
M(payment_service::TransferRpcInfo, 2);
M(payment_service::TransactionRpcInfo, 2);
M(payment_service::GetTransaction::Request, 2);
M(payment_service::GetTransaction::Response, 2);
M(payment_service::TransactionsInBlockRpcInfo, 2);
M(payment_service::GetTransactions::Request, 2);
M(payment_service::GetTransactions::Response, 2);
M(payment_service::GetUnconfirmedTransactionHashes::Request, 2);
M(payment_service::GetUnconfirmedTransactionHashes::Response, 2);
M(payment_service::WalletRpcOrder, 2);
M(payment_service::WalletRpcMessage, 2);
M(payment_service::SendTransaction::Request, 2);
M(payment_service::SendTransaction::Response, 2);
M(payment_service::CreateDelayedTransaction::Request, 2);
M(payment_service::CreateDelayedTransaction::Response, 2);
M(payment_service::GetDelayedTransactionHashes::Request, 2);
M(payment_service::GetDelayedTransactionHashes::Response, 2);
M(payment_service::DeleteDelayedTransaction::Request, 2);
M(payment_service::DeleteDelayedTransaction::Response, 2);
M(payment_service::SendDelayedTransaction::Request, 2);
M(payment_service::SendDelayedTransaction::Response, 2);
M(payment_service::GetMessagesFromExtra::Request, 2);
M(payment_service::GetMessagesFromExtra::Response, 2);
M(payment_service::EstimateFusion::Request, 2);
M(payment_service::EstimateFusion::Response, 2);
M(payment_service::SendFusionTransaction::Request, 2);
M(payment_service::SendFusionTransaction::Response, 2);
M(tools::wallet_rpc::COMMAND_RPC_GET_BALANCE::response, 2);
M(tools::wallet_rpc::transfer_destination, 2);
M(tools::wallet_rpc::TransferMessage, 2);
M(tools::wallet_rpc::COMMAND_RPC_TRANSFER::request, 2);
M(tools::wallet_rpc::COMMAND_RPC_TRANSFER::response, 2);
M(tools::wallet_rpc::transaction_messages, 2);
M(tools::wallet_rpc::COMMAND_RPC_CREATE_INTEGRATED::request, 2);
M(tools::wallet_rpc::COMMAND_RPC_CREATE_INTEGRATED::response, 2);
M(tools::wallet_rpc::COMMAND_RPC_GET_MESSAGES::request, 2);
M(tools::wallet_rpc::COMMAND_RPC_GET_MESSAGES::response, 2);
M(tools::wallet_rpc::payment_details, 2);
M(tools::wallet_rpc::COMMAND_RPC_GET_PAYMENTS::request, 2);
M(tools::wallet_rpc::COMMAND_RPC_GET_PAYMENTS::response, 2);
M(tools::wallet_rpc::Transfer, 2);
M(tools::wallet_rpc::COMMAND_RPC_GET_TRANSFERS::response, 2);
M(tools::wallet_rpc::COMMAND_RPC_GET_HEIGHT::response, 2);
M(tools::wallet_rpc::COMMAND_RPC_GET_OUTPUTS::response, 2);
M(tools::wallet_rpc::COMMAND_RPC_OPTIMIZE::response, 2);
M(tools::wallet_rpc::COMMAND_RPC_ESTIMATE_FUSION::request, 2);
M(tools::wallet_rpc::COMMAND_RPC_ESTIMATE_FUSION::response, 2);
M(tools::wallet_rpc::COMMAND_RPC_GET_TX_PROOF::request, 2);
M(tools::wallet_rpc::COMMAND_RPC_GET_TX_PROOF::response, 2);
M(tools::wallet_rpc::COMMAND_RPC_GET_BALANCE_PROOF::request, 2);
M(tools::wallet_rpc::COMMAND_RPC_GET_BALANCE_PROOF::response, 2);
M(tools::wallet_rpc::COMMAND_RPC_SEND_FUSION::request, 2);
M(tools::wallet_rpc::COMMAND_RPC_SEND_FUSION::response, 2);
