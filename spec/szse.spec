protocol szse
package com.finproto.szse.bin.messages
endian big

message BusinessReject {
  char[3] applId
  i64 transactTime
  char[6] submittingPbuid
  char[8] securityId
  char[4] securityIdsource
  i64 refSeqNum
  i32 refMsgType
  char[10] businessRejectRefId
  i16 businessRejectReason
  char[50] businessRejectText
}

message CancelReject {
  i32 partitionNo
  i64 reportIndex
  char[3] applId
  char[6] reportingPbuid
  char[6] submittingPbuid
  char[8] securityId
  char[4] securityIdsource
  i16 ownerType
  char[2] clearingFirm
  i64 transactTime
  char[8] userInfo
  char[10] clOrdId
  char[10] origClOrdId
  char[1] side
  char[1] ordStatus
  i16 cxlRejReason
  char[16] rejectText
  char[16] orderId
}

message ExecutionConfirm {
  i32 partitionNo
  i64 reportIndex
  char[3] applId
  char[6] reportingPbuid
  char[6] submittingPbuid
  char[8] securityId
  char[4] securityIdsource
  i16 ownerType
  char[2] clearingFirm
  i64 transactTime
  char[8] userInfo
  char[16] orderId
  char[10] clOrdId
  char[10] quoteMsgId
  char[10] origClOrdId
  char[16] execId
  char[1] execType
  char[1] ordStatus
  i16 ordRejReason
  i64 leavesQty
  i64 cumQty
  char[1] side
  char[1] ordType
  i64 orderQty
  i64 price
  char[12] accountId
  char[4] branchId
  char[4] orderRestrictions
  body by applId applExtend
  case "010" -> Extend200102
  case "020" -> Extend200202
  case "030" -> Extend200302
  case "051" -> Extend200502
  case "052" -> Extend200502
  case "060" -> Extend200602
  case "061" -> Extend200602
  case "070" -> Extend200702
  case "150" -> Extend201502
  case "151" -> Extend201502
  case "152" -> Extend201502
  case "160" -> Extend201602
  case "170" -> Extend201702
  case "180" -> Extend201802
  case "181" -> Extend201802
  case "270" -> Extend202702
  case "271" -> Extend202702
  case "280" -> Extend202802
  case "281" -> Extend202802
  case "290" -> Extend202902
  case "291" -> Extend202902
  case "630" -> Extend206302
  case "350" -> Extend203502
  case "351" -> Extend203502
  case "370" -> Extend203702
  case "410" -> Extend204102
  case "417" -> Extend204129
  case "470" -> Extend204702
}

message ExecutionReport {
  i32 partitionNo
  i64 reportIndex
  char[3] applId
  char[6] reportingPbuid
  char[6] submittingPbuid
  char[8] securityId
  char[4] securityIdsource
  i16 ownerType
  char[2] clearingFirm
  i64 transactTime
  char[8] userInfo
  char[16] orderId
  char[10] clOrdId
  char[10] quoteMsgId
  char[16] execId
  char[1] execType
  char[1] ordStatus
  i64 lastPx
  i64 lastQty
  i64 leavesQty
  i64 cumQty
  char[1] side
  char[12] accountId
  char[4] branchId
  body by applId applExtend
  case "010" -> Extend200115
  case "020" -> Extend200215
  case "030" -> Extend200315
  case "051" -> Extend200515
  case "052" -> Extend200515
  case "056" -> Extend200515
  case "057" -> Extend200515
  case "060" -> Extend200615
  case "061" -> Extend200615
  case "070" -> Extend200715
  case "630" -> Extend206315
  case "370" -> Extend203715
  case "410" -> Extend204115
  case "412" -> Extend204115
  case "413" -> Extend204115
  case "415" -> Extend204115
  case "416" -> Extend204115
  case "417" -> Extend204130
  case "470" -> Extend204715
}

message Extend100101 {
  i64 stopPx
  i64 minQty
  i16 maxPriceLevels
  char[1] timeInForce
  char[1] cashMargin
}

message Extend100201 {
  i64 stopPx
  i64 minQty
  i16 maxPriceLevels
  char[1] timeInForce
}

message Extend100301 {
  i64 stopPx
  i64 minQty
  i16 maxPriceLevels
  char[1] timeInForce
}

message Extend100501 {
  char[8] confirmId
  char[1] cashMargin
}

message Extend100601 {
  char[1] cashMargin
}

message Extend100701 {
  i16 expirationDays
  i8 expirationType
  char[2] shareProperty
}

message Extend101401 {
  i64 stopPx
  i64 minQty
  i16 maxPriceLevels
  char[1] timeInForce
  char[1] positionEffect
  i8 coveredOrUncovered
  char[6] contractAccountCode
  char[16] secondaryOrderId
}

message Extend101501 {
  char[2] shareProperty
}

message Extend101601 {
  char[6] contractAccountCode
}

message Extend101701 {
  i64 cashOrderQty
}

message Extend101801 {
  char[6] tenderer
}

message Extend102701 {
  char[6] disposalPbu
  char[12] disposalAccountId
}

message Extend102801 {
  char[6] lenderPbu
  char[12] lenderAccountId
}

message Extend102901 {
  char[6] deductionPbu
  char[12] deductionAccountId
}

message Extend103501 {
  char[6] contractAccountCode
}

message Extend103701 {
  char[1] cashMargin
}

message Extend104101 {
  i64 stopPx
  i64 minQty
  i16 maxPriceLevels
  char[1] timeInForce
  char[1] cashMargin
}

message Extend104128 {
  char[6] memberId
  char[2] investorType
  char[10] investorId
  char[120] investorName
  char[8] traderCode
  char[16] secondaryOrderId
  i16 bidTransType
  i16 bidExecInstType
  i64 lowLimitPrice
  i64 highLimitPrice
  i64 minQty
  i32 tradeDate
  i16 settlType
  i8 settlPeriod
  i8 preTradeAnonymity
  char[1] cashMargin
  char[160] memo
}

message Extend104701 {
  char[16] secondaryOrderId
}

message Extend106301 {
  i64 stopPx
  i64 minQty
  i16 maxPriceLevels
  char[1] timeInForce
  char[1] lotType
}

message Extend200102 {
  i64 stopPx
  i64 minQty
  i16 maxPriceLevels
  char[1] timeInForce
  char[1] cashMargin
}

message Extend200115 {
  char[1] cashMargin
}

message Extend200202 {
  i64 stopPx
  i64 minQty
  i16 maxPriceLevels
  char[1] timeInForce
}

message Extend200215 {
  i32 maturityDate
}

message Extend200302 {
  i64 stopPx
  i64 minQty
  i16 maxPriceLevels
  char[1] timeInForce
}

message Extend200315 {
  i32 maturityDate
}

message Extend200402 {
  i64 stopPx
  i64 minQty
  i16 maxPriceLevels
  char[1] timeInForce
  char[1] positionEffect
  i8 coveredOrUncovered
  char[6] contractAccountCode
  char[16] secondaryOrderId
}

message Extend200415 {
  char[1] positionEffect
  i8 coveredOrUncovered
  char[6] contractAccountCode
  char[16] secondaryOrderId
}

message Extend200502 {
  char[8] confirmId
  char[1] cashMargin
}

message Extend200515 {
  char[8] confirmId
  char[1] cashMargin
}

message Extend200602 {
  char[1] cashMargin
}

message Extend200615 {
  char[1] cashMargin
}

message Extend200702 {
  i16 expirationDays
  i8 expirationType
  char[2] shareProperty
}

message Extend200715 {
  i16 expirationDays
  i8 expirationType
  i32 maturityDate
  char[2] shareProperty
}

message Extend201202 {
  char[8] insufficientSecurityId
  i32 noSecurity
  char[8] underlyingSecurityId
  char[4] underlyingSecurityIdsource
  i64 deliveryQty
  i64 substCash
}

message Extend201502 {
  char[2] shareProperty
}

message Extend201602 {
  char[6] contractAccountCode
}

message Extend201702 {
  i64 cashOrderQty
}

message Extend201802 {
  char[6] tenderer
}

message Extend202702 {
  char[6] disposalPbu
  char[12] disposalAccountId
}

message Extend202802 {
  char[6] lenderPbu
  char[12] lenderAccountId
}

message Extend202902 {
  char[6] deductionPbu
  char[12] deductionAccountId
}

message Extend203102 {
  char[8] insufficientSecurityId
  i32 noSecurity
  char[8] underlyingSecurityId
  char[4] underlyingSecurityIdsource
  i64 deliveryQty
}

message Extend203502 {
  char[6] contractAccountCode
}

message Extend203702 {
  char[1] cashMargin
}

message Extend203715 {
  char[1] cashMargin
}

message Extend204102 {
  i64 stopPx
  i64 minQty
  i16 maxPriceLevels
  char[1] timeInForce
  char[1] cashMargin
}

message Extend204115 {
  char[1] cashMargin
  i16 settlType
  i8 settlPeriod
  char[6] counterpartyMemberId
  char[2] counterpartyInvestorType
  char[10] counterpartyInvestorId
  char[120] counterpartyInvestorName
  char[8] counterpartyTraderCode
}

message Extend204129 {
  char[6] memberId
  char[2] investorType
  char[10] investorId
  char[120] investorName
  char[8] traderCode
  char[16] secondaryOrderId
  i16 bidTransType
  i16 bidExecInstType
  i64 lowLimitPrice
  i64 highLimitPrice
  i64 minQty
  i32 tradeDate
  i16 settlType
  i8 settlPeriod
  i8 preTradeAnonymity
  char[1] cashMargin
  char[160] memo
}

message Extend204130 {
  char[6] memberId
  char[2] investorType
  char[10] investorId
  char[120] investorName
  char[8] traderCode
  char[6] counterpartyMemberId
  char[2] counterpartyInvestorType
  char[10] counterpartyInvestorId
  char[120] counterpartyInvestorName
  char[8] counterpartyTraderCode
  char[16] secondaryOrderId
  i16 bidTransType
  i16 bidExecInstType
  i16 settlType
  i8 settlPeriod
  char[1] cashMargin
  char[160] memo
}

message Extend204702 {
  char[16] secondaryOrderId
}

message Extend204715 {
  i16 expirationDays
  i8 expirationType
  i32 maturityDate
  char[2] shareProperty
}

message Extend206302 {
  char[16] rejectText
  i64 stopPx
  i64 minQty
  i16 maxPriceLevels
  char[1] timeInForce
  char[1] lotType
  i32 imcrejectTextLen
  str<u32> imcrejectText
}

message Extend206315 {
  char[1] cashMargin
}

message Heartbeat {
}

message Logon {
  char[20] senderCompId
  char[20] targetCompId
  i32 heartBtint
  char[16] password
  char[32] defaultApplVerId
}

message Logout {
  i32 sessionStatus
  char[200] text
}

message NewOrder {
  char[3] applId
  char[6] submittingPbuid
  char[8] securityId
  char[4] securityIdsource
  i16 ownerType
  char[2] clearingFirm
  i64 transactTime
  char[8] userInfo
  char[10] clOrdId
  char[12] accountId
  char[4] branchId
  char[4] orderRestrictions
  char[1] side
  char[1] ordType
  i64 orderQty
  i64 price
  body by applId applExtend
  case "010" -> Extend100101
  case "020" -> Extend100201
  case "030" -> Extend100301
  case "051" -> Extend100501
  case "052" -> Extend100501
  case "060" -> Extend100601
  case "061" -> Extend100601
  case "070" -> Extend100701
  case "150" -> Extend101501
  case "151" -> Extend101501
  case "152" -> Extend101501
  case "160" -> Extend101601
  case "170" -> Extend101701
  case "180" -> Extend101801
  case "181" -> Extend101801
  case "270" -> Extend102701
  case "271" -> Extend102701
  case "280" -> Extend102801
  case "281" -> Extend102801
  case "290" -> Extend102901
  case "291" -> Extend102901
  case "630" -> Extend106301
  case "350" -> Extend103501
  case "351" -> Extend103501
  case "370" -> Extend103701
  case "410" -> Extend104101
  case "417" -> Extend104128
  case "470" -> Extend104701
}

message OrderCancelRequest {
  char[3] applId
  char[6] submittingPbuid
  char[8] securityId
  char[4] securityIdsource
  i16 ownerType
  char[2] clearingFirm
  i64 transactTime
  char[8] userInfo
  char[10] clOrdId
  char[10] origClOrdId
  char[1] side
  char[16] orderId
  i64 orderQty
}

message PartitionReport {
  i32 partitionNo
  i64 reportIndex
}

message PlatformInfo {
  i16 platformId
  list<u32> msg PlatformPartition platformPartition
}

message PlatformPartition {
  i32 partitionNo
}

message PlatformStateInfo {
  i16 platformId
  i16 platformState
}

message ReportFinished {
  i32 partitionNo
  i64 reportIndex
  i16 platformId
}

message ReportSynchronization {
  list<u32> msg PartitionReport partitionReport
}

frame SzseBinary {
  i32 msgType
  bodylen32 bodyLength
  body by msgType body
  checksum32(SZSE_BIN) checksum
  case 1 -> Logon
  case 2 -> Logout
  case 3 -> Heartbeat
  case 4 -> BusinessReject
  case 5 -> ReportSynchronization
  case 6 -> PlatformStateInfo
  case 7 -> ReportFinished
  case 9 -> PlatformPartition
  case 10 -> TradingSessionStatus
  case 100101 -> NewOrder
  case 100201 -> NewOrder
  case 100301 -> NewOrder
  case 100401 -> NewOrder
  case 100501 -> NewOrder
  case 100601 -> NewOrder
  case 100701 -> NewOrder
  case 101201 -> NewOrder
  case 101301 -> NewOrder
  case 101401 -> NewOrder
  case 101501 -> NewOrder
  case 101601 -> NewOrder
  case 101701 -> NewOrder
  case 101801 -> NewOrder
  case 101901 -> NewOrder
  case 102301 -> NewOrder
  case 102701 -> NewOrder
  case 102801 -> NewOrder
  case 102901 -> NewOrder
  case 103101 -> NewOrder
  case 106301 -> NewOrder
  case 103301 -> NewOrder
  case 103501 -> NewOrder
  case 103701 -> NewOrder
  case 104101 -> NewOrder
  case 104128 -> NewOrder
  case 104701 -> NewOrder
  case 200102 -> ExecutionConfirm
  case 200202 -> ExecutionConfirm
  case 200302 -> ExecutionConfirm
  case 200402 -> ExecutionConfirm
  case 200502 -> ExecutionConfirm
  case 200602 -> ExecutionConfirm
  case 200702 -> ExecutionConfirm
  case 201202 -> ExecutionConfirm
  case 201302 -> ExecutionConfirm
  case 201402 -> ExecutionConfirm
  case 201502 -> ExecutionConfirm
  case 201602 -> ExecutionConfirm
  case 201702 -> ExecutionConfirm
  case 201802 -> ExecutionConfirm
  case 201902 -> ExecutionConfirm
  case 202202 -> ExecutionConfirm
  case 202302 -> ExecutionConfirm
  case 202702 -> ExecutionConfirm
  case 202802 -> ExecutionConfirm
  case 202902 -> ExecutionConfirm
  case 203102 -> ExecutionConfirm
  case 206302 -> ExecutionConfirm
  case 203302 -> ExecutionConfirm
  case 203502 -> ExecutionConfirm
  case 203702 -> ExecutionConfirm
  case 204102 -> ExecutionConfirm
  case 204129 -> ExecutionConfirm
  case 204702 -> ExecutionConfirm
  case 200115 -> ExecutionReport
  case 200215 -> ExecutionReport
  case 200315 -> ExecutionReport
  case 200415 -> ExecutionReport
  case 200515 -> ExecutionReport
  case 200615 -> ExecutionReport
  case 200715 -> ExecutionReport
  case 206315 -> ExecutionReport
  case 203715 -> ExecutionReport
  case 204115 -> ExecutionReport
  case 204130 -> ExecutionReport
  case 190007 -> OrderCancelRequest
  case 290008 -> CancelReject
}

message TradingSessionStatus {
  char[8] marketId
  char[8] marketSegmentId
  char[4] tradingSessionId
  char[4] tradingSessionSubId
  i16 tradSesStatus
  i64 tradSesStartTime
  i64 tradSesEndTime
}
