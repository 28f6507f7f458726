package org.msgpack.value;
public interface ImmutableFloatValue extends ImmutableNumberValue { }
