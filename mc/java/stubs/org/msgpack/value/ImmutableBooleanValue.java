package org.msgpack.value;
public interface ImmutableBooleanValue extends ImmutableValue { boolean getBoolean(); }
