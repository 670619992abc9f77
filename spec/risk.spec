protocol risk
package com.finproto.risk.bin.messages
endian big

message CancelReject {
  str<u32> uniqueOrderId
  str<u32> uniqueOrigOrderId
  str<u32> clOrdId
  str<u32> origClOrdId
  i32 cxlRejReason
}

message ExecutionReport {
  str<u32> uniqueOrderId
  str<u32> clOrdId
  str<u32> ordCnfmId
  i64 lastPx
  i64 lastQty
  char[1] ordStatus
}

message NewOrder {
  str<u32> uniqueOrderId
  str<u32> clOrdId
  str<u32> securityId
  char[1] side
  i64 price
  i64 orderQty
  char[1] ordType
  str<u32> account
}

message OrderCancel {
  str<u32> uniqueOrderId
  str<u32> uniqueOrigOrderId
  str<u32> clOrdId
  str<u32> origClOrdId
  str<u32> securityId
}

message OrderConfirm {
  str<u32> uniqueOrderId
  str<u32> uniqueOrigOrderId
  str<u32> clOrdId
  char[1] execType
  i32 ordRejReason
  str<u32> ordCnfmId
}

frame RcBinary {
  i32 msgType
  i32 version
  bodylen32 msgBodyLen
  body by msgType body
  case 100101 -> NewOrder
  case 200102 -> OrderConfirm
  case 200115 -> ExecutionReport
  case 190007 -> OrderCancel
  case 290008 -> CancelReject
  case 800001 -> RiskResult
}

message RiskResult {
  str<u32> uniqueOrderId
  i8 riskStatus
  str<u32> riskReason
}
