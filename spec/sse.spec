protocol sse
package com.finproto.sse.bin.messages
endian big

message CancelReject {
  char[8] pbu
  i32 setId
  i64 reportIndex
  i32 bizId
  char[8] bizPbu
  char[10] clOrdId
  char[12] securityId
  char[10] origClOrdId
  char[8] branchId
  i32 cxlRejReason
  i32 tradeDate
  i64 transactTime
  char[32] userInfo
}

message Confirm {
  char[8] pbu
  i32 setId
  i64 reportIndex
  i32 bizId
  char[1] execType
  char[8] bizPbu
  char[10] clOrdId
  char[12] securityId
  char[13] account
  i8 ownerType
  char[1] side
  i64 price
  i64 orderQty
  i64 leavesQty
  i64 cxlQty
  char[1] ordType
  char[1] timeInForce
  char[1] ordStatus
  char[2] creditTag
  char[10] origClOrdId
  char[8] clearingFirm
  char[8] branchId
  i32 ordRejReason
  char[16] ordCnfmId
  char[16] origOrdCnfmId
  i32 tradeDate
  i64 transactTime
  char[32] userInfo
}

message ExecRptEndOfStream {
  char[8] pbu
  i32 setId
  i64 endReportIndex
}

message ExecRptInfo {
  i16 platformId
  list<u16> char[8] pbu
  list<u16> i32 setId
}

message ExecRptSync {
  list<u16> msg ExecRptSync$SubExecRptSync subExecRptSync
}

message ExecRptSync$SubExecRptSync {
  char[8] pbu
  i32 setId
  i64 beginReportIndex
}

message ExecRptSyncRsp {
  list<u16> msg ExecRptSyncRsp$SubExecRptSyncRsp subExecRptSyncRsp
}

message ExecRptSyncRsp$SubExecRptSyncRsp {
  char[8] pbu
  i32 setId
  i64 beginReportIndex
  i64 endReportIndex
  i32 rejReason
  char[64] text
}

message Heartbeat {
}

message Logon {
  char[32] senderCompId
  char[32] targetCompId
  i16 heartBtInt
  char[8] prtclVersion
  i32 tradeDate
  i32 qsize
}

message Logout {
  i32 sessionStatus
  char[64] text
}

message NewOrderSingle {
  i32 bizId
  char[8] bizPbu
  char[10] clOrdId
  char[12] securityId
  char[13] account
  i8 ownerType
  char[1] side
  i64 price
  i64 orderQty
  char[1] ordType
  char[1] timeInForce
  i64 transactTime
  char[2] creditTag
  char[8] clearingFirm
  char[8] branchId
  char[32] userInfo
}

message OrderCancel {
  i32 bizId
  char[8] bizPbu
  char[10] clOrdId
  char[12] securityId
  char[13] account
  i8 ownerType
  char[1] side
  char[10] origClOrdId
  i64 transactTime
  char[8] branchId
  char[32] userInfo
}

message OrderReject {
  i32 bizId
  char[8] bizPbu
  char[10] clOrdId
  char[12] securityId
  i32 ordRejReason
  i32 tradeDate
  i64 transactTime
  char[32] userInfo
}

message PlatformState {
  i16 platformId
  i16 platformState
}

message Report {
  char[8] pbu
  i32 setId
  i64 reportIndex
  i32 bizId
  char[1] execType
  char[8] bizPbu
  char[10] clOrdId
  char[12] securityId
  char[13] account
  i8 ownerType
  i64 orderEntryTime
  i64 lastPx
  i64 lastQty
  i64 grossTradeAmt
  char[1] side
  i64 orderQty
  i64 leavesQty
  char[1] ordStatus
  char[2] creditTag
  char[8] clearingFirm
  char[8] branchId
  char[16] trdCnfmId
  char[16] ordCnfmId
  i32 tradeDate
  i64 transactTime
  char[32] userInfo
}

frame SseBinary {
  i32 msgType
  i64 msgSeqNum
  bodylen32 msgBodyLen
  body by msgType body
  checksum32(SSE_BIN) checksum
  case 33 -> Heartbeat
  case 40 -> Logon
  case 41 -> Logout
  case 58 -> NewOrderSingle
  case 61 -> OrderCancel
  case 32 -> Confirm
  case 59 -> CancelReject
  case 103 -> Report
  case 204 -> OrderReject
  case 209 -> PlatformState
  case 208 -> ExecRptInfo
  case 206 -> ExecRptSync
  case 207 -> ExecRptSyncRsp
  case 210 -> ExecRptEndOfStream
}
