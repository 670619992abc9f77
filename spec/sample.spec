protocol sample
package com.finproto.sample.messages
endian little

message BasicPacket {
  i8 fieldI8
  i16 fieldI16
  i32 fieldI32
  i64 fieldI64
  char[1,zero,left] fieldChar
  i8 fieldU8
  i16 fieldU16
  i32 fieldU32
  i64 fieldU64
  f32 fieldF32
  f64 fieldF64
  list<u16> i8 fieldI8List
  list<u16> i16 fieldI16List
  list<u16> i32 fieldI32List
  list<u16> i64 fieldI64List
  list<u16> char[1,zero,left] fieldCharList
  list<u16> i8 fieldU8List
  list<u16> i16 fieldU16List
  list<u16> i32 fieldU32List
  list<u16> i64 fieldU64List
  list<u16> f32 fieldF32List
  list<u16> f64 fieldF64List
}

message EmptyPacket {
}

message NestedPacket {
  msg SubPacket subPacket
  list<u16> msg SubPacket subPacketList
  msg NestedPacket$InerPacket inerPacket
}

message NestedPacket$InerPacket {
  i32 fieldU32
  list<u16> i16 fieldI16List
}

frame RootPacket {
  i16 msgType
  bodylen32 payloadLen
  body by msgType payload
  checksum32(CRC32) checksum
  case 1 -> BasicPacket
  case 2 -> StringPacket
  case 3 -> NestedPacket
  case 4 -> EmptyPacket
}

message StringPacket {
  str<u16> fieldDynamicString
  str<u16> fieldDynamicString1
  char[1,zero,left] fieldFixedString1
  char[10,zero,left] fieldFixedString10
  char[10,sp,left] fieldFixedString10Pad
  char[10,nul,right] fieldFixedString10PadWithNullTerminator
  list<u16> str<u16> fieldDynamicStringList
  list<u16> str<u16> fieldDynamicString1List
  list<u16> char[1,zero,left] fieldFixedString1List
  list<u16> char[10,zero,left] fieldFixedString10List
  list<u16> char[10,zero,right] fieldFixedString10ListPad
  list<u16> char[10,nul,right] fieldFixedString10PadWithNullTerminatorList
}

message SubPacket {
  i32 fieldU32
  list<u16> i16 fieldI16List
}
