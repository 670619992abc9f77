package vp;

/** Independent checksum implementations (JDK CRC32; bitwise CRC16/MODBUS; byte sum). */
public final class RefSum {
  public static int crc32(byte[] b) {
    java.util.zip.CRC32 c = new java.util.zip.CRC32();
    c.update(b);
    return (int) c.getValue();
  }

  public static int crc16(byte[] b) {
    int crc = 0xFFFF;
    for (byte x : b) {
      crc ^= x & 0xFF;
      for (int i = 0; i < 8; i++) crc = (crc & 1) != 0 ? (crc >> 1) ^ 0xA001 : crc >> 1;
    }
    return crc;
  }

  public static int sum8(byte[] b) {
    byte s = 0;
    for (byte x : b) s += x;
    return s & 0xFF;
  }
}
