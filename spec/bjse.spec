protocol bjse
package com.finproto.bjse.trade.messages
endian little

message AllegeQuote {
  i32 partitionNo
  i64 reportIndex
  char[3] applId
  char[6] reportingPbuid
  char[6] submittingPbuid
  char[8] securityId
  char[4] securityIdsource
  i16 ownerType
  char[2] clearingFirm
  i64 transactTime
  char[32] userInfo
  char[16] orderId
  char[16] execId
  char[10] clOrdId
  char[10] accountId
  char[10] quoteReqId
  char[10] quoteId
  char[10] quoteRespId
  i8 quoteType
  i64 bidPx
  i64 offerPx
  i64 bidSize
  i64 offerSize
  i8 privateQuote
  i64 validUntilTime
  i8 priceType
  char[120] memo
  body by applId applExtend
  case "070" -> AllegeQuoteExtend070
}

message AllegeQuoteExtend070 {
  char[1] cashMargin
  char[6] counterPartyPbuid
}

message AllegeQuoteResponse {
  i32 partitionNo
  i64 reportIndex
  char[3] applId
  char[6] reportingPbuid
  char[6] submittingPbuid
  char[8] securityId
  char[4] securityIdsource
  i16 ownerType
  char[2] clearingFirm
  i64 transactTime
  char[32] userInfo
  char[16] orderId
  char[16] execId
  char[10] clOrdId
  char[10] accountId
  char[10] quoteId
  char[10] quoteRespId
  i8 quoteRespType
  i8 privateQuote
  i64 orderQty
  i64 price
  i64 validUntilTime
  i8 quoteType
  i8 priceType
}

frame BjseBinary {
  i32 msgType
  i32 bodyLength
  body by msgType body
  i32 checksum
  case 1 -> Logon
  case 2 -> Logout
  case 3 -> Heartbeat
  case 101000 -> NewOrder
  case 102000 -> OrderCancelRequest
  case 201000 -> CancelReject
  case 202010 -> ExecutionConfirm
  case 203010 -> ExecutionReport
  case 5 -> ReportSynchronization
  case 6 -> PlatformStateInfo
  case 7 -> ReportFinished
}

message BusinessReject {
  char[3] applId
  i64 transactTime
  char[6] submittingPbuid
  char[8] securityId
  char[4] securityIdsource
  i64 refSeqNum
  i32 refMsgType
  char[10] businessRejectRefId
  i16 businessRejectReason
  char[50] businessRejectText
}

message CancelReject {
  i32 partitionNo
  i64 reportIndex
  char[3] applId
  char[6] reportingPbuid
  char[6] submittingPbuid
  char[8] securityId
  char[4] securityIdsource
  i16 ownerType
  char[2] clearingFirm
  i64 transactTime
  char[32] userInfo
  char[10] clOrdId
  char[10] origClOrdId
  char[10] accountId
  char[2] branchId
  char[1] ordStatus
  i16 cxlRejReason
  char[16] rejectText
  char[16] orderId
}

message ConfirmExtend010 {
  i64 stopPx
  i64 minQty
  i16 maxPriceLevels
  char[1] timeInForce
  char[1] cashMargin
}

message ConfirmExtend040 {
  i64 stopPx
  i64 minQty
  i16 maxPriceLevels
  char[1] timeInForce
  char[1] cashMargin
}

message ConfirmExtend041 {
}

message ConfirmExtend042 {
}

message ConfirmExtend043 {
}

message ConfirmExtend044 {
}

message ConfirmExtend045 {
}

message ConfirmExtend050 {
  i16 expirationDays
  i8 expirationType
  char[2] shareProperty
}

message ExecutionConfirm {
  i32 partitionNo
  i64 reportIndex
  char[3] applId
  char[6] reportingPbuid
  char[6] submittingPbuid
  char[8] securityId
  char[4] securityIdsource
  i16 ownerType
  char[2] clearingFirm
  i64 transactTime
  char[32] userInfo
  char[16] orderId
  char[10] clOrdId
  char[10] origClOrdId
  char[16] execId
  char[1] execType
  char[1] ordStatus
  i16 ordRejReason
  i64 leavesQty
  i64 cumQty
  char[1] side
  char[1] ordType
  i64 orderQty
  i64 price
  char[10] accountId
  char[2] branchId
  char[4] orderRestrictions
  body by applId applExtend
  case "010" -> ConfirmExtend010
  case "040" -> ConfirmExtend040
  case "041" -> ConfirmExtend041
  case "042" -> ConfirmExtend042
  case "043" -> ConfirmExtend043
  case "044" -> ConfirmExtend044
  case "045" -> ConfirmExtend045
  case "050" -> ConfirmExtend050
}

message ExecutionReport {
  i32 partitionNo
  i64 reportIndex
  char[3] applId
  char[6] reportingPbuid
  char[6] submittingPbuid
  char[8] securityId
  char[4] securityIdsource
  i16 ownerType
  char[2] clearingFirm
  i64 transactTime
  char[32] userInfo
  char[16] orderId
  char[10] clOrdId
  char[16] execId
  char[1] execType
  char[1] ordStatus
  i64 lastPx
  i64 lastQty
  i64 leavesQty
  i64 cumQty
  char[1] side
  char[10] accountId
  char[2] branchId
  body by applId applExtend
  case "010" -> ReportExtend010
  case "040" -> ReportExtend040
  case "050" -> ReportExtend050
}

message Extend010 {
  i64 stopPx
  i64 minQty
  i16 maxPriceLevels
  i8 timeInForce
  i8 cashMargin
  i8 settlType
  i8 settlPeriod
}

message Extend040 {
  i64 stopPx
  i64 minQty
  i16 maxPriceLevels
  i8 timeInForce
  i8 cashMargin
}

message Extend041 {
}

message Extend042 {
}

message Extend043 {
}

message Extend044 {
}

message Extend045 {
}

message Extend050 {
  i16 expirationDays
  i8 expirationType
  char[2] shareProperty
}

message ExtendNewOrder010 {
  i64 stopPx
  i64 minQty
  i16 maxPriceLevels
  char[1] timeInForce
  char[1] cashMargin
  char[1] settlType
  char[1] settlPeriod
}

message ExtendNewOrder040 {
  i64 stopPx
  i64 minQty
  i16 maxPriceLevels
  char[1] timeInForce
  char[1] cashMargin
}

message ExtendNewOrder041 {
}

message ExtendNewOrder042 {
}

message ExtendNewOrder043 {
}

message ExtendNewOrder044 {
}

message ExtendNewOrder045 {
}

message ExtendNewOrder050 {
  i16 expirationDays
  i8 expirationType
  char[2] shareProperty
}

message Heartbeat {
}

message Logon {
  char[20] senderCompId
  char[20] targetCompId
  i32 heartBtInt
  char[16] password
  char[32] defaultApplVerId
}

message Logout {
  i32 sessionStatus
  char[200] text
}

message NewOrder {
  char[3] applId
  char[6] submittingPbuid
  char[8] securityId
  char[4] securityIdsource
  i16 ownerType
  char[2] clearingFirm
  i64 transactTime
  char[32] userInfo
  char[10] clOrdId
  char[10] accountId
  char[2] branchId
  char[4] orderRestrictions
  char[1] side
  char[1] ordType
  i64 orderQty
  i64 price
  body by applId applExtend
  case "010" -> ExtendNewOrder010
  case "040" -> ExtendNewOrder040
  case "041" -> ExtendNewOrder041
  case "042" -> ExtendNewOrder042
  case "043" -> ExtendNewOrder043
  case "044" -> ExtendNewOrder044
  case "045" -> ExtendNewOrder045
  case "050" -> ExtendNewOrder050
}

message OrderCancelRequest {
  char[3] applId
  char[6] submittingPbuid
  char[8] securityId
  char[4] securityIdsource
  i16 ownerType
  char[2] clearingFirm
  i64 transactTime
  char[32] userInfo
  char[10] clOrdId
  char[10] origClOrdId
  char[10] accountId
  char[2] branchId
  char[16] orderId
  i64 orderQty
}

message PlatformInfo {
  i16 platformId
  list<u16> msg PlatformInfo$NoPartitions noPartitions
}

message PlatformInfo$NoPartitions {
  i32 partitionNo
  char[20] partitionName
}

message PlatformStateInfo {
  i16 platformId
  i16 platformState
}

message Quote {
  char[3] applId
  char[6] submittingPbuid
  char[8] securityId
  char[4] securityIdsource
  i16 ownerType
  char[2] clearingFirm
  i64 transactTime
  char[32] userInfo
  char[10] quoteMsgId
  char[10] accountId
  char[10] quoteReqId
  i8 quoteType
  i64 bidPx
  i64 offerPx
  i64 bidSize
  i64 offerSize
  body by applId applExtend
  case "070" -> QuoteExtend070
  case "071" -> QuoteExtend071
}

message QuoteExtend070 {
  char[2] branchId
  char[10] quoteId
  char[10] quoteRespId
  i8 privateQuote
  i64 validUntilTime
  i8 priceType
  char[1] cashMargin
  char[6] counterPartyPbuid
  char[120] memo
}

message QuoteExtend071 {
}

message QuoteResponse {
  char[3] applId
  char[6] reportingPbuid
  char[6] submittingPbuid
  char[8] securityId
  char[4] securityIdsource
  i16 ownerType
  char[2] clearingFirm
  i64 transactTime
  char[32] userInfo
  char[10] clOrdId
  char[10] accountId
  char[2] branchId
  char[10] quoteRespId
  i8 quoteRespType
  char[1] side
  i64 validUntilTime
  i8 quoteType
  i8 priceType
  list<u16> msg QuoteResponse$Quote2 quote2
  body by applId applExtend
  case "070" -> QuoteResponseExtend070
}

message QuoteResponse$Quote2 {
  char[10] quoteId
  i64 quotePrice
  i64 quoteQty
}

message QuoteResponseExtend070 {
  char[1] cashMargin
}

message QuoteStatusReport {
  i32 partitionNo
  i64 reportIndex
  char[3] applId
  char[6] reportingPbuid
  char[6] submittingPbuid
  char[8] securityId
  char[4] securityIdsource
  i16 ownerType
  char[2] clearingFirm
  i64 transactTime
  char[32] userInfo
  char[10] quoteMsgId
  char[10] accountId
  char[10] quoteReqId
  i64 quoteRjectReason
  i8 quoteType
  i64 bidPx
  i64 offerPx
  i64 bidSize
  i64 offerSize
  body by applId applExtend
  case "070" -> QuoteStatusReportExtend070
}

message QuoteStatusReportExtend070 {
  char[2] branchId
  char[16] orderId
  char[16] execId
  char[10] quoteRespId
  i8 privateQuote
  char[1] side
  i8 priceType
  i64 validUntilTime
  char[1] cashMargin
  char[6] counterPartyPbuid
  char[120] memo
  list<u16> msg QuoteStatusReportExtend070$Quote1 quote1
}

message QuoteStatusReportExtend070$Quote1 {
  char[10] quoteId
  i64 quotePrice
  i64 quoteQty
}

message ReportExtend010 {
  char[1] cashMargin
  char[1] settlType
  char[1] settlPeriod
}

message ReportExtend040 {
  char[1] cashMargin
}

message ReportExtend050 {
  i16 expirationDays
  i8 expirationType
  i32 maturityDate
  char[2] shareProperty
}

message ReportFinished {
  i32 partitionNo
  i64 reportIndex
  i16 platformId
}

message ReportSynchronization {
  list<u16> msg ReportSynchronization$ReportPartitionSync reportPartitionSync
}

message ReportSynchronization$ReportPartitionSync {
  i32 partitionNo
  i64 reportIndex
}

message TradeCaptureCofirm {
  i32 partitionNo
  i64 reportIndex
  char[3] applId
  char[6] reportingPbuid
  char[6] submittingPbuid
  char[8] securityId
  char[4] securityIdsource
  i16 ownerType
  char[2] clearingFirm
  i64 transactTime
  char[32] userInfo
  char[16] tradeId
  char[10] tradeReportId
  i8 tradeReportType
  i8 tradeReportTransType
  i8 tradeHandlingInstr
  i64 lastPx
  i64 lastQty
  i16 trdType
  i16 trdSubType
  i32 confirmId
  char[16] execId
  i8 side
  char[6] pbuid
  char[10] accountId
  char[2] branchId
  char[6] counterPartyPbuid
  char[10] counterPartyAccountId
  char[2] counterPartyBranchId
  body by applId applExtend
  case "031" -> TradeCaptureCofirmExtend031
  case "051" -> TradeCaptureCofirmExtend051
  case "060" -> TradeCaptureCofirmExtend060
  case "061" -> TradeCaptureCofirmExtend061
  case "062" -> TradeCaptureCofirmExtend062
}

message TradeCaptureCofirmExtend031 {
  char[6] memberId
  char[5] traderCode
  char[6] counterPartyMemberId
  char[5] counterPartyTraderCode
  i8 settlType
  i8 settlPeriod
  i8 cashMargin
  char[120] memo
}

message TradeCaptureCofirmExtend051 {
  i16 expirationDays
  i8 expirationType
  i32 maturityDate
  char[2] shareProperty
}

message TradeCaptureCofirmExtend060 {
}

message TradeCaptureCofirmExtend061 {
}

message TradeCaptureCofirmExtend062 {
  i8 cashMargin
}

message TradeCaptureConfirm {
  i32 partitionNo
  i64 reportIndex
  char[3] applId
  char[6] reportingPbuid
  char[6] submittingPbuid
  char[8] securityId
  char[4] securityIdsource
  i16 ownerType
  char[2] clearingFirm
  i64 transactTime
  char[32] userInfo
  char[16] tradeId
  char[10] tradeReportId
  i8 tradeReportType
  i8 tradeReportTransType
  char[1] tradeHandlingInstr
  i64 lastPx
  i64 lastQty
  i16 trdType
  i16 trdSubType
  i32 confirmId
  char[16] execId
  char[1] side
  char[6] pbuid
  char[10] accountId
  char[2] branchId
  char[6] counterPartyPbuid
  char[10] counterPartyAccountId
  char[2] counterPartyBranchId
  body by applId applExtend
  case "031" -> TradeCaptureConfirmExtend031
  case "051" -> TradeCaptureConfirmExtend051
  case "060" -> TradeCaptureConfirmExtend060
  case "061" -> TradeCaptureConfirmExtend061
  case "062" -> TradeCaptureConfirmExtend062
}

message TradeCaptureConfirmExtend031 {
  char[6] memberId
  char[5] traderCode
  char[6] counterPartyMemberId
  char[5] counterPartyTraderCode
  char[1] settlType
  char[1] settlPeriod
  char[1] cashMargin
  char[120] memo
}

message TradeCaptureConfirmExtend051 {
  i16 expirationDays
  i8 expirationType
  i32 maturityDate
  char[2] shareProperty
}

message TradeCaptureConfirmExtend060 {
}

message TradeCaptureConfirmExtend061 {
}

message TradeCaptureConfirmExtend062 {
  char[1] cashMargin
}

message TradeCaptureReport {
  char[3] applId
  char[6] submittingPbuid
  char[8] securityId
  char[4] securityIdsource
  i16 ownerType
  char[2] clearingFirm
  i64 transactTime
  char[32] userInfo
  char[10] tradeReportId
  i8 tradeReportType
  i8 tradeReportTransType
  char[1] tradeHandlingInstr
  char[10] tradeReportRefId
  i64 lastPx
  i64 lastQty
  i16 trdType
  i16 trdSubType
  i32 confirmId
  char[1] side
  char[6] pbuid
  char[10] accountId
  char[2] branchId
  char[6] counterPartyPbuid
  char[10] counterPartyAccountId
  char[2] counterPartyBranchId
  body by applId applExtend
  case "031" -> TradeCaptureReportExtend031
  case "051" -> TradeCaptureReportExtend051
  case "060" -> TradeCaptureReportExtend060
  case "061" -> TradeCaptureReportExtend061
  case "062" -> TradeCaptureReportExtend062
}

message TradeCaptureReportAck {
  i32 partitionNo
  i64 reportIndex
  char[3] applId
  char[6] reportingPbuid
  char[6] submittingPbuid
  char[8] securityId
  char[4] securityIdsource
  i16 ownerType
  char[2] clearingFirm
  i64 transactTime
  char[32] userInfo
  char[16] tradeId
  char[10] tradeReportId
  i8 tradeReportType
  i8 tradeReportTransType
  char[1] tradeHandlingInstr
  char[10] tradeReportRefId
  i8 trdAckStatus
  i8 trdRptStatus
  i16 tradeReportRejectReason
  i64 lastPx
  i64 lastQty
  i16 trdType
  i16 trdSubType
  i32 confirmId
  char[16] execId
  char[1] side
  char[6] pbuid
  char[10] accountId
  char[2] branchId
  char[6] counterPartyPbuid
  char[10] counterPartyAccountId
  char[2] counterPartyBranchId
  body by applId applExtend
  case "031" -> TradeCaptureReportAckExtend031
  case "051" -> TradeCaptureReportAckExtend051
  case "060" -> TradeCaptureReportAckExtend060
  case "061" -> TradeCaptureReportAckExtend061
  case "062" -> TradeCaptureReportAckExtend062
}

message TradeCaptureReportAckExtend031 {
  char[6] memberId
  char[5] traderCode
  char[6] counterPartyMemberId
  char[5] counterPartyTraderCode
  char[1] settlType
  char[1] settlPeriod
  char[1] cashMargin
  char[120] memo
}

message TradeCaptureReportAckExtend051 {
  i16 expirationDays
  i8 expirationType
  char[2] shareProperty
}

message TradeCaptureReportAckExtend060 {
}

message TradeCaptureReportAckExtend061 {
}

message TradeCaptureReportAckExtend062 {
  char[1] cashMargin
}

message TradeCaptureReportExtend031 {
  char[6] memberId
  char[5] traderCode
  char[6] counterPartyMemberId
  char[5] counterPartyTraderCode
  char[1] settlType
  char[1] settlPeriod
  char[1] cashMargin
  char[120] memo
}

message TradeCaptureReportExtend051 {
  i16 expirationDays
  i8 expirationType
  char[2] shareProperty
}

message TradeCaptureReportExtend060 {
}

message TradeCaptureReportExtend061 {
}

message TradeCaptureReportExtend062 {
  char[1] cashMargin
}

message TradingSessionStatus {
  char[3] marketId
  char[3] marketSegmentId
  char[3] tradingSessionId
  char[3] tradingSessionSubId
  i8 tradSesStatus
  i64 tradSesStartTime
}
