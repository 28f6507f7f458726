package org.msgpack.value;
import java.util.List;
public interface ImmutableArrayValue extends ImmutableValue, Iterable<Value> {
    int size();
    Value get(int index);
    List<Value> list();
}
