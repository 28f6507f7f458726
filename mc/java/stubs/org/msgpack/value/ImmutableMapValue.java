package org.msgpack.value;
import java.util.Map;
import java.util.Set;
public interface ImmutableMapValue extends ImmutableValue {
    int size();
    Map<Value, Value> map();
    Set<Value> keySet();
    Set<Map.Entry<Value, Value>> entrySet();
}
