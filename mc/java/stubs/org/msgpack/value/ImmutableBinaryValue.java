package org.msgpack.value;
public interface ImmutableBinaryValue extends ImmutableRawValue { }
