package org.msgpack.value;

public enum ValueType {
    NIL, BOOLEAN, INTEGER, FLOAT, STRING, BINARY, ARRAY, MAP, EXTENSION;
    public boolean isNilType() { return this == NIL; }
    public boolean isBooleanType() { return this == BOOLEAN; }
    public boolean isNumberType() { return this == INTEGER || this == FLOAT; }
    public boolean isIntegerType() { return this == INTEGER; }
    public boolean isFloatType() { return this == FLOAT; }
    public boolean isRawType() { return this == STRING || this == BINARY; }
    public boolean isStringType() { return this == STRING; }
    public boolean isBinaryType() { return this == BINARY; }
    public boolean isArrayType() { return this == ARRAY; }
    public boolean isMapType() { return this == MAP; }
    public boolean isExtensionType() { return this == EXTENSION; }
}
