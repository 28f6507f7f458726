package org.msgpack.value;
public interface ImmutableExtensionValue extends ImmutableValue {
    byte getType();
    byte[] getData();
}
