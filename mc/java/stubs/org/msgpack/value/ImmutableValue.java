package org.msgpack.value;

import org.msgpack.core.MessageTypeException;

public interface ImmutableValue extends Value {
    default ImmutableValue immutableValue() { return this; }
    default ImmutableBooleanValue asBooleanValue() { throw new MessageTypeException("not a boolean"); }
    default ImmutableNumberValue asNumberValue() { throw new MessageTypeException("not a number"); }
    default ImmutableIntegerValue asIntegerValue() { throw new MessageTypeException("not an integer"); }
    default ImmutableFloatValue asFloatValue() { throw new MessageTypeException("not a float"); }
    default ImmutableBinaryValue asBinaryValue() { throw new MessageTypeException("not a binary"); }
    default ImmutableStringValue asStringValue() { throw new MessageTypeException("not a string"); }
    default ImmutableRawValue asRawValue() { throw new MessageTypeException("not raw"); }
    default ImmutableArrayValue asArrayValue() { throw new MessageTypeException("not an array"); }
    default ImmutableMapValue asMapValue() { throw new MessageTypeException("not a map"); }
    default ImmutableExtensionValue asExtensionValue() { throw new MessageTypeException("not an extension"); }
}
