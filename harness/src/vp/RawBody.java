package vp;

import com.finproto.codec.BinaryCodec;
import io.netty.buffer.ByteBuf;
import java.util.Arrays;

/** An application-defined message: a fixed number of opaque bytes. */
public class RawBody implements BinaryCodec {
  public byte[] data;

  public RawBody(int n) {
    data = new byte[n];
  }

  public RawBody(byte[] d) {
    data = d;
  }

  @Override
  public void encode(ByteBuf b) {
    b.writeBytes(data);
  }

  @Override
  public void decode(ByteBuf b) {
    byte[] d = new byte[data.length];
    b.readBytes(d);
    data = d;
  }

  @Override
  public boolean equals(Object o) {
    return o instanceof RawBody && Arrays.equals(data, ((RawBody) o).data);
  }

  @Override
  public int hashCode() {
    return Arrays.hashCode(data);
  }

  @Override
  public String toString() {
    return "RawBody" + Show.hex(data, 16);
  }
}
