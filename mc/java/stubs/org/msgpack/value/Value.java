package org.msgpack.value;

import java.io.IOException;
import org.msgpack.core.MessagePacker;

public interface Value {
    ValueType getValueType();
    ImmutableValue immutableValue();
    void writeTo(MessagePacker packer) throws IOException;
    default boolean isNilValue() { return getValueType().isNilType(); }
    default boolean isBooleanValue() { return getValueType().isBooleanType(); }
    default boolean isNumberValue() { return getValueType().isNumberType(); }
    default boolean isIntegerValue() { return getValueType().isIntegerType(); }
    default boolean isFloatValue() { return getValueType().isFloatType(); }
    default boolean isRawValue() { return getValueType().isRawType(); }
    default boolean isBinaryValue() { return getValueType().isBinaryType(); }
    default boolean isStringValue() { return getValueType().isStringType(); }
    default boolean isArrayValue() { return getValueType().isArrayType(); }
    default boolean isMapValue() { return getValueType().isMapType(); }
    default boolean isExtensionValue() { return getValueType().isExtensionType(); }
}
