package org.msgpack.value;
import java.math.BigInteger;
public interface ImmutableIntegerValue extends ImmutableNumberValue {
    boolean isInByteRange();
    boolean isInShortRange();
    boolean isInIntRange();
    boolean isInLongRange();
    byte asByte();
    short asShort();
    int asInt();
    long asLong();
    BigInteger asBigInteger();
}
