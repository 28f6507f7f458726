package org.msgpack.value;
import java.nio.ByteBuffer;
public interface ImmutableRawValue extends ImmutableValue {
    byte[] asByteArray();
    ByteBuffer asByteBuffer();
    String asString();
}
